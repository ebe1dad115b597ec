"""Construction of TT-objects: the metadata describes the cores, inconsistent
arguments are refused."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS

BATCH = (None, 'B')


def _cores(B, d, kind, batch, name='a'):
  ns, rs = B.modes('n', d), B.ranks('r', d)
  ms = B.modes('m', d) if kind == 'matrix' else None
  bs = [] if batch is None else [B.dim(batch)]
  dims = [bs + [rs[k], ns[k]] + ([ms[k]] if ms else []) + [rs[k + 1]] for k in range(d)]
  return dims, ns, ms, rs, bs


def _make(B, cores, batch, *args, **kw):
  cls = B.t3f.TensorTrain if batch is None else B.t3f.TensorTrainBatch
  return cls(cores, *args, **kw)


def _tensors(B, dims, dtype=None):
  return [B.tensor('a.%d' % k, s, dtype) for k, s in enumerate(dims)]


@contract('C02', grid(d=[1, 2, 3], kind=KINDS, batch=BATCH, given=['none', 'shape', 'ranks', 'all', 'tuple']),
          grid(d=[4], kind=KINDS, batch=BATCH, given=['none', 'all']),
          functions=['tensor_train.__init__', 'tensor_train._infer_raw_shape', 'tensor_train._infer_tt_ranks',
                     'tensor_train_batch.__init__', 'tensor_train_batch._infer_batch_raw_shape',
                     'tensor_train_batch._infer_batch_tt_ranks', 'shapes.clean_raw_shape',
                     'tensor_train_base.get_shape', 'tensor_train_base.get_raw_shape',
                     'tensor_train_base.get_tt_ranks', 'tensor_train_base.ndims',
                     'tensor_train_base.is_tt_matrix', 'tensor_train_base.dtype',
                     'tensor_train_batch.get_shape', 'tensor_train_batch.batch_size'])
def construct(B, d, kind, batch, given):
  """A successful construction reports the cores it was given."""
  dims, ns, ms, rs, bs = _cores(B, d, kind, batch)
  cores = _tensors(B, dims)
  raw = [list(ns)] if ms is None else [list(ns), list(ms)]
  shape = list(ns) if ms is None else raw
  kw = {}
  if given in ('shape', 'all'):
    kw['shape'] = shape
  if given == 'tuple':
    kw['shape'] = tuple(B.tf.TensorShape(x) for x in raw)
    kw['tt_ranks'] = B.tf.TensorShape(rs)
  if given in ('ranks', 'all'):
    kw['tt_ranks'] = list(rs)
  if batch is not None and given == 'all':
    kw['batch_size'] = bs[0]
  x = _make(B, cores if given != 'tuple' else tuple(cores), batch, **kw)
  B.wf('object', x, shape=raw)
  B.true('keeps-the-cores', len(x.tt_cores) == d)
  for k in range(d):
    B.eq('core-%d' % k, x.tt_cores[k], cores[k])
  o = len(bs)
  B.same('left-rank-axis', x.left_tt_rank_dim, o)
  B.same('right-rank-axis', x.right_tt_rank_dim, len(dims[0]) - 1)
  B.true('is-not-a-variable', not x.is_variable())


@contract('C02', grid(d=[1, 2], kind=KINDS, batch=BATCH),
          functions=['tensor_train.__init__', 'tensor_train_batch.__init__'])
def construct_from_list(B, d, kind, batch):
  """The caller's list is copied, not kept."""
  dims, ns, ms, rs, bs = _cores(B, d, kind, batch)
  cores = _tensors(B, dims)
  mine = list(cores)
  x = _make(B, mine, batch)
  before = B.den(x)
  mine[0] = mine[0] * 2.
  mine.append(mine[0])
  B.eq('value-unaffected', B.den(x), before)
  B.true('list-unaffected', len(mine) == d + 1)


BAD = ['mode', 'mode-last', 'rank', 'left-end', 'right-end', 'ndim', 'mixed-ndim', 'short-ranks', 'wrong-rank',
       'wrong-last-rank', 'short-shape', 'long-shape', 'kind', 'dtype']


def _positions(names):
  """Conditions at one core or bond, for every one of them."""
  return [dict(d=d, kind=k, batch=b, bad='%s@%d' % (n, i)) for n in names for d in (2, 3, 4, 5) for k in KINDS
          for b in BATCH for i in range(d) if not ((n in ('rank', 'stated-rank', 'dtype', 'ndim', 'batch') and i == 0) or
                                                   (n == 'batch' and not b))]


@contract('C02', [dict(d=d, kind=k, batch=b, bad=bad) for d in (1, 2, 3) for k in KINDS for b in BATCH
                  for bad in BAD + (['batch', 'batch-arg'] if b else [])
                  if not (d == 1 and bad in ('rank', 'mixed-ndim', 'dtype', 'batch'))],
          _positions(['mode', 'mode-col', 'rank', 'stated-rank', 'dtype', 'ndim', 'batch']), deep=(),
          functions=['tensor_train._are_tt_cores_valid', 'tensor_train_batch._are_batch_tt_cores_valid',
                     'shapes.are_dims_different', 'shapes.clean_raw_shape'])
def reject(B, d, kind, batch, bad):
  """Cores that do not form a TT-object of the stated shape are refused."""
  dims, ns, ms, rs, bs = _cores(B, d, kind, batch)
  o = len(bs)
  last = d - 1
  kw = {}
  shape = list(ns) if ms is None else [list(ns), list(ms)]
  x = B.dim('x')
  dtypes = [None] * d
  if '@' in bad:
    bad, k = bad.split('@')
    k = int(k)
    if bad.startswith('mode'):
      s = [list(ns)] + ([list(ms)] if ms else [])
      which = -1 if bad == 'mode-col' else 0
      B.require('!=', x, s[which][k])
      s[which][k] = x
      kw['shape'] = s if ms else s[0]
    elif bad == 'rank':
      B.require('!=', x, rs[k])
      dims[k][o] = x
    elif bad == 'stated-rank':
      B.require('!=', x, rs[k])
      kw['tt_ranks'] = list(rs)[:k] + [x] + list(rs)[k + 1:]
    elif bad == 'dtype':
      dtypes[k] = 'float32'
    elif bad == 'ndim':
      dims[k] = dims[k][:-1] + [1] + dims[k][-1:] if not ms else dims[k][:-2] + dims[k][-1:]
    elif bad == 'batch':
      B.require('!=', x, bs[0])
      dims[k][0] = x
  elif bad in ('mode', 'mode-last'):
    k, which = (0, 0) if bad == 'mode' else (last, -1)
    s = [list(ns)] + ([list(ms)] if ms else [])
    B.require('!=', x, s[which][k])
    s[which][k] = x
    kw['shape'] = s if ms else s[0]
  elif bad == 'rank':
    B.require('!=', x, rs[1])
    dims[1][o] = x
  elif bad == 'left-end':
    B.require('!=', x, 1)
    dims[0][o] = x
  elif bad == 'right-end':
    B.require('!=', x, 1)
    dims[last][-1] = x
  elif bad == 'ndim':
    dims = [s[:-1] + [1, 1] + s[-1:] for s in dims]
    if ms:
      dims = [s + [1] for s in dims]
    else:
      dims = [s + [1] for s in dims]
  elif bad == 'mixed-ndim':
    dims[last] = dims[last][:-1] + [1] + dims[last][-1:] if not ms else dims[last][:-2] + dims[last][-1:]
  elif bad == 'short-ranks':
    kw['tt_ranks'] = list(rs)[:-1]
  elif bad == 'wrong-rank':
    B.require('!=', x, 1)
    kw['tt_ranks'] = [x] + list(rs)[1:]
  elif bad == 'wrong-last-rank':
    B.require('!=', x, 1)
    kw['tt_ranks'] = list(rs)[:-1] + [x]
  elif bad == 'short-shape':
    if d == 1:
      kw['shape'] = ([[1, 1], [1, 1]] if ms else [1, 1])
    else:
      kw['shape'] = [list(ns)[:-1], list(ms)[:-1]] if ms else list(ns)[:-1]
  elif bad == 'long-shape':
    kw['shape'] = [list(ns) + [1], list(ms) + [1]] if ms else list(ns) + [1]
  elif bad == 'kind':
    kw['shape'] = list(ns) if ms else [list(ns), list(ns)]
  elif bad == 'dtype':
    dtypes[last] = 'float32'
  elif bad == 'batch':
    B.require('!=', x, bs[0])
    dims[last][0] = x
  elif bad == 'batch-arg':
    B.require('!=', x, bs[0])
    kw['batch_size'] = x
  cores = [B.tensor('a.%d' % k, s, dtypes[k]) for k, s in enumerate(dims)]
  B.raises('refused', ValueError, lambda: _make(B, cores, batch, **kw))


@contract('C02', [dict(kind=k, batch=b) for k in KINDS for b in BATCH],
          functions=['tensor_train._are_tt_cores_valid', 'tensor_train_batch._are_batch_tt_cores_valid'])
def reject_inner_rank(B, kind, batch):
  """A stated inner rank that is not the rank of the cores is refused."""
  dims, ns, ms, rs, bs = _cores(B, 3, kind, batch)
  x = B.dim('x')
  B.require('!=', x, rs[2])
  cores = _tensors(B, dims)
  B.raises('refused', ValueError, lambda: _make(B, cores, batch, tt_ranks=[1, rs[1], x, 1]))


@contract('C02', grid(d=[1, 2, 3], kind=KINDS), functions=['shapes.expand_batch_dim', 'shapes.squeeze_batch_dim'])
def batch_dim_round_trip(B, d, kind):
  a = B.tt('a', d, kind)
  s = B.t3f.shapes
  e = s.expand_batch_dim(a)
  B.true('is-batch', B.is_batch(e))
  B.same_tt('expanded', e, B.expand(B.den(a), 0))
  B.same('size-one', e.batch_size, 1)
  q = s.squeeze_batch_dim(e)
  B.true('is-not-batch', not B.is_batch(q))
  B.same_tt('squeezed', q, B.den(a))
  B.true('plain-objects-unchanged', s.squeeze_batch_dim(a) is a)


@contract('C02', grid(d=[1, 2], kind=KINDS), functions=['shapes.expand_batch_dim', 'shapes.squeeze_batch_dim'])
def batch_dim_of_batch(B, d, kind):
  a = B.tt('a', d, kind, 'B')
  s = B.t3f.shapes
  B.same_tt('expand', s.expand_batch_dim(a), B.den(a))
  q = s.squeeze_batch_dim(a)
  if B.sure('==', B.dim('B'), 1):
    B.true('squeezed', not B.is_batch(q))
    B.same_tt('squeeze-one', q, B.squeeze(B.den(a), 0))
  else:
    B.true('kept', B.is_batch(q))
    B.same_tt('squeeze-many', q, B.den(a))


@contract('C02', [dict(form=f, d=d) for f in ('list', 'array', 'TensorShape', 'tuple', 'matrix', 'matrix-tuple', 'none')
                  for d in (1, 2, 3)],
          functions=['shapes.clean_raw_shape'])
def clean_raw_shape(B, form, d):
  ns, ms = B.modes('n', d), B.modes('m', d)
  f = B.t3f.shapes.clean_raw_shape
  tf = B.tf
  arg, want = {
      'list': (list(ns), [ns]), 'array': (tuple(ns), [ns]), 'TensorShape': (tf.TensorShape(ns), [ns]),
      'tuple': ((tf.TensorShape(ns),), [ns]), 'matrix': ([list(ns), list(ms)], [ns, ms]),
      'matrix-tuple': ((tf.TensorShape(ns), tf.TensorShape(ms)), [ns, ms]), 'none': (None, None)}[form]
  r = f(arg)
  if want is None:
    B.true('none', r is None)
  else:
    B.true('tuple-of-shapes', isinstance(r, tuple) and all(isinstance(s, tf.TensorShape) for s in r))
    B.same('sizes', [list(s) for s in r], want)


@contract('C02', grid(batch=[False, True]), replay_only=True, functions=['tensor_train.__init__', 'tensor_train_batch.__init__'])
def reject_long_ranks(B, batch):
  """Two cores of rank one with a list of seven TT-ranks."""
  pre = [1] if batch else []
  cores = [B.tensor('c%d' % k, pre + [1, 2, 1]) for k in range(2)]
  make = B.t3f.TensorTrainBatch if batch else B.t3f.TensorTrain
  B.raises('refused', (ValueError,), lambda: make(cores, tt_ranks=7 * [1]))
