"""Plain arguments (lists, arrays) are left as they were, and objects do not
change when the caller later reuses the lists they were made from."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS


def _listed(x):
  if hasattr(x, 'setflags') and hasattr(x, 'tolist'):
    x = x.tolist()
  if hasattr(x, 'tt_cores') or not hasattr(x, '__len__') or hasattr(x, 'shape'):
    return x
  return [_listed(i) for i in x]


class Kept(object):

  def __init__(self, B):
    self.B, self.items = B, []

  def __call__(self, x):
    self.items.append((x, _listed(x)))
    return x

  def check(self):
    for k, (x, was) in enumerate(self.items):
      now = _listed(x)
      self.B.true('argument-%d' % k, _alike(now, was))


def _alike(a, b):
  if isinstance(b, list):
    return isinstance(a, list) and len(a) == len(b) and all(_alike(x, y) for x, y in zip(a, b))
  return a is b or (not hasattr(b, 'tt_cores') and not hasattr(b, 'shape') and a is not None and b is not None
                    and bool(a == b))


def _as(B, xs, form):
  """A list of numbers as a list or an array."""
  return list(xs) if form == 'list' else B.array(xs)


FORMS = ('list', 'array')


@contract('C21', grid(d=[2, 3], form=FORMS, kind=KINDS, batch=[None, 'P']), deep=(),
          functions=['decompositions.round', 'decompositions._round_tt', 'decompositions._round_batch_tt'])
def rounding(B, d, form, kind, batch):
  keep = Kept(B)
  a = B.tt('a', kind=kind, batch=batch, n=[2, 3, 2][:d], m=[2, 1, 3][:d], r=[1] + [3] * (d - 1) + [1])
  for name, caps in (('wide', [9] * (d + 1)), ('tight', [2] * (d + 1))):
    B.t3f.round(a, max_tt_rank=keep(_as(B, caps, form)))
  keep.check()


@contract('C21', grid(d=[2, 3], form=FORMS, kind=KINDS), deep=(),
          functions=['decompositions.to_tt_tensor', 'decompositions.to_tt_matrix'])
def conversion(B, d, form, kind):
  keep = Kept(B)
  ns, ms = [2, 3, 2][:d], [2, 1, 3][:d]
  caps = keep(_as(B, [2] * (d + 1), form))
  if kind == 'tensor':
    B.t3f.to_tt_tensor(B.tensor('x', ns), max_tt_rank=caps)
  else:
    x = B.tensor('x', [B.prod(ns), B.prod(ms)])
    B.t3f.to_tt_matrix(x, keep([_as(B, ns, form), _as(B, ms, form)]), max_tt_rank=caps)
    B.t3f.to_tt_matrix(x, keep(_as(B, [list(ns), list(ms)], form)), max_tt_rank=9)
  keep.check()


RANDOM = ('random_tensor', 'random_matrix', 'random_tensor_batch', 'random_matrix_batch', 'tensor_with_random_cores',
          'matrix_with_random_cores', 'tensor_batch_with_random_cores', 'matrix_batch_with_random_cores',
          'glorot_initializer', 'he_initializer', 'lecun_initializer')
OTHERS = ('tensor_ones', 'tensor_zeros', 'matrix_ones', 'matrix_zeros', 'eye')


@contract('C21', grid(form=FORMS, op=RANDOM + OTHERS), functions=['initializers.' + x for x in RANDOM + OTHERS])
def initializers(B, form, op):
  keep = Kept(B)
  ns, ms = B.modes('n', 3), B.modes('m', 3)
  f = getattr(B.t3f, op)
  matrix = 'matrix' in op or op.split('_')[0] in ('glorot', 'he', 'lecun')
  shapes = [keep([_as(B, ns, form), _as(B, ms, form)]), keep([_as(B, ns, form), None]), keep([None, _as(B, ms, form)])] \
      if matrix else [keep(_as(B, ns, form))]
  for s in shapes:
    if op in RANDOM:
      f(s, tt_rank=keep(_as(B, B.ranks('r', 3), form)))
      f(s, tt_rank=2)
    else:
      f(s)
  keep.check()


@contract('C21', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P'], form=FORMS), deep=(),
          functions=['TensorTrain.__init__', 'TensorTrainBatch.__init__', 'tensor_train_base.tt_cores'])
def construction(B, d, kind, batch, form):
  """Neither the constructor nor the caller's later use of its lists matters."""
  a = B.tt('a', d, kind, batch)
  cores = list(a.tt_cores)
  raw = [_as(B, s, form) for s in ([list(s) for s in a.get_raw_shape()])]
  shape = raw if kind == 'matrix' else raw[0]
  rk = _as(B, list(a.get_tt_ranks()), form)
  kept = Kept(B)
  kept(cores), kept(shape), kept(rk)
  make = B.t3f.TensorTrainBatch if batch else B.t3f.TensorTrain
  for x in (make(cores, shape, rk), make(cores)):
    kept.check()
    v, s, r = B.den(a), [list(i) for i in a.get_raw_shape()], list(a.get_tt_ranks())
    c2, s2, r2 = list(cores), [list(i) for i in s], list(r)
    y = make(c2, s2 if kind == 'matrix' else s2[0], r2)
    c2[0] = c2[0] * 2.
    c2.append(c2[0])
    r2[0] = 7
    for i in s2:
      i[0] = 9
    B.eq('value-kept', B.den(y), v)
    B.same('shape-kept', [list(i) for i in y.get_raw_shape()], s)
    B.same('ranks-kept', list(y.get_tt_ranks()), r)
    # the lists an object hands out are not the object
    y.get_raw_shape()
    got = y.tt_cores
    if isinstance(got, list):
      got[0] = got[0] * 3.
      B.eq('cores-kept', B.den(y), v)


@contract('C21', grid(d=[2, 3], kind=KINDS, form=FORMS), deep=(),
          functions=['approximate.add_n', 'approximate.reduce_sum_batch', 'batch_ops.concat_along_batch_dim',
                     'batch_ops.multiply_along_batch_dim', 'riemannian.add_n_projected', 'riemannian.project_sum',
                     'riemannian.project'])
def lists_of_objects(B, d, kind, form):
  keep = Kept(B)
  sizes = dict(n=[2, 3, 2][:d], m=[2, 1, 3][:d], r=[1] + [2] * (d - 1) + [1])
  xs = [B.tt('x%d' % i, kind=kind, **sizes) for i in range(3)]
  bs = [B.tt('b%d' % i, d, kind, 'P%d' % i, r='r') for i in range(3)]
  with B.exact_rounding():
    B.t3f.approximate.add_n(keep(list(xs)), 10 ** 6)
  B.t3f.concat_along_batch_dim(keep(list(bs)))
  t = B.tt('t', kind=kind, batch=3, **sizes)
  w = B.tt('w', kind=kind, **sizes)
  ps = [B.t3f.project(x, w) for x in xs]
  for weights in ([1., 2., 3.], [-1e-7, 0., 1e-4], [2e6, -1., 1e-9]):
    weights = _as(B, weights, form)
    with B.exact_rounding():
      B.t3f.approximate.reduce_sum_batch(t, 10 ** 6, coef=keep(weights))
    B.t3f.multiply_along_batch_dim(t, keep(weights))
    B.t3f.project_sum(t, w, keep(weights))
    B.t3f.add_n_projected(keep(list(ps)), coef=keep(weights))
  keep.check()


@contract('C21', grid(d=[2, 3], scale=[1., 1e-6, 1e6]), deep=(), replay_only=True, large=False,
          functions=['decompositions.to_tt_tensor', 'decompositions.to_tt_matrix', 'ops.matmul', 'TensorTrain.__init__',
                     'approximate.reduce_sum_batch', 'riemannian.project_sum', 'riemannian.add_n_projected'],
          domain='sampled: numpy arrays as arguments')
def arrays(B, d, scale):
  """Arrays of numbers are not written to."""
  np, kept = B.np, []
  ns, ms = [2, 3, 2][:d], [2, 1, 3][:d]

  def array(name, *dims):
    x = scale * B.rng(name).normal(size=dims)
    x.flat[0] = 0.
    kept.append((name, x, x.copy()))
    return x
  n, m = B.prod(ns), B.prod(ms)
  B.t3f.to_tt_tensor(array('tensor', *ns), max_tt_rank=2)
  a = B.t3f.to_tt_matrix(array('matrix', n, m), [ns, ms], max_tt_rank=4)
  B.t3f.matmul(a, B.tf.constant(array('right', m, 2), a.dtype))
  cores = [array('core%d' % k, 1 if k == 0 else 2, ns[k], 1 if k == d - 1 else 2) for k in range(d)]
  x = B.t3f.TensorTrain(cores)
  for f in (B.t3f.full, B.t3f.round, B.t3f.orthogonalize_tt_cores, B.t3f.renormalize_tt_cores, B.t3f.frobenius_norm_squared):
    f(x)
  t = B.t3f.TensorTrainBatch([np.stack([c, 2 * c, -c]) for c in cores])
  B.t3f.approximate.reduce_sum_batch(t, 2, coef=array('columns', 3, 2))
  B.t3f.project_sum(t, x, array('weights', 3, 2))
  B.t3f.multiply_along_batch_dim(t, array('factors', 3))
  p = B.t3f.project(t, x)
  B.t3f.add_n_projected([p, p], coef=array('coef', 2, 3))
  v = B.t3f.get_variable('v', initializer=x)
  B.t3f.assign(v, B.t3f.TensorTrain([array('new%d' % k, *c.shape) for k, c in enumerate(cores)]))
  for name, now, was in kept:
    B.true(name, bool(np.array_equal(now, was)))


@contract('C21', grid(form=FORMS, batch=[None, 3]), functions=['ops.gather_nd', 'utils.unravel_index'])
def indices(B, form, batch):
  keep = Kept(B)
  a = B.tt('a', kind='tensor', batch=batch, n=[2, 3, 2], r=[1, 2, 2, 1])
  rows = [[0, 1, 1], [1, 2, 0]] if batch is None else [[2, 0, 1, 1], [0, 1, 2, 0]]
  idx = keep([list(r) for r in rows] if form == 'list' else B.np_array(rows))
  B.t3f.gather_nd(a, idx)
  spec = keep([slice(None)] * 3)
  a[tuple(spec)] if batch is None else a[(slice(None),) + tuple(spec)]
  keep.check()
