"""Initializers."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS


def _shape(B, d, kind, form='both'):
  """(argument, row sizes, column sizes)."""
  ns = B.modes('n', d)
  if kind == 'tensor':
    return list(ns), ns, None
  ms = B.modes('m', d)
  one = [1] * d
  if form == 'row':
    return [None, list(ms)], one, ms
  if form == 'col':
    return [list(ns), None], ns, one
  return [list(ns), list(ms)], ns, ms


def _forms(d):
  return [dict(d=x, kind='tensor', form='both') for x in d] + [
      dict(d=x, kind='matrix', form=f) for x in d for f in ('both', 'row', 'col')]


def _dims(ns, ms):
  return list(ns) + (list(ms) if ms is not None else [])


@contract('C17', [dict(c, value=v, dt=dt) for c in _forms([1, 2, 3]) for v in ('ones', 'zeros')
                  for dt in ('float64', None)],
          [dict(c, value=v, dt=t) for c in _forms([2]) for v in ('ones', 'zeros') for t in ('int32', 'int64', 'float16')] +
          [dict(c, value=v, dt='float32') for c in _forms([4, 5]) for v in ('ones', 'zeros')],
          functions=['initializers.tensor_ones', 'initializers.tensor_zeros', 'initializers.matrix_ones',
                     'initializers.matrix_zeros', 'initializers._validate_input_parameters'])
def constant(B, d, kind, form, value, dt):
  arg, ns, ms = _shape(B, d, kind, form)
  f = getattr(B.t3f, '%s_%s' % (kind, value))
  r = f(arg, dtype=B.tf.as_dtype(dt)) if dt else f(arg)
  B.true('kind', not B.is_batch(r) and B.is_matrix(r) == (ms is not None))
  want = (B.ones if value == 'ones' else B.zeros)(_dims(ns, ms))
  B.same('shape', [list(s) for s in r.get_raw_shape()], [list(ns)] + ([list(ms)] if ms is not None else []))
  B.same_tt('value', r, want, dtype=B.tf.as_dtype(dt or 'float32'))
  B.same('ranks', list(r.get_tt_ranks()), [1] * (d + 1))


@contract('C17', [dict(d=d, dt=dt) for d in (1, 2, 3) for dt in ('float64', None)], [dict(d=4, dt='float64')],
          functions=['initializers.eye'])
def eye(B, d, dt):
  ns = B.modes('n', d)
  r = B.t3f.eye(list(ns), dtype=B.tf.as_dtype(dt)) if dt else B.t3f.eye(list(ns))
  i = [('i', k) for k in range(d)]
  j = [('j', k) for k in range(d)]
  want = B.contract([[i[k], j[k]] for k in range(d)], [B.eye(n) for n in ns], i + j)
  B.same_tt('identity', r, want, dtype=B.tf.as_dtype(dt or 'float32'))
  B.same('ranks', list(r.get_tt_ranks()), [1] * (d + 1))
  B.eq('dense', B.dense(r), B.eye(B.prod(ns)))


@contract('C17', [dict(d=d, kind=k, value=v, batch=b, dtype=t) for d in (1, 2, 3) for k in KINDS
                  for v in ('ones', 'zeros') for b in (None, 'P') for t in ('float64', 'float32')],
          functions=['initializers.ones_like', 'initializers.zeros_like'])
def like(B, d, kind, value, batch):
  """Same shape, kind and dtype as the model (one object even for a batch)."""
  a = B.tt('a', d, kind, batch)
  r = getattr(B.t3f, value + '_like')(a)
  raw = [list(s) for s in a.get_raw_shape()]
  want = (B.ones if value == 'ones' else B.zeros)([x for s in raw for x in s])
  B.true('kind', B.is_matrix(r) == (kind == 'matrix') and not B.is_batch(r))
  B.same('shape', [list(s) for s in r.get_raw_shape()], raw)
  B.same_tt('value', r, want)
  B.same('ranks', list(r.get_tt_ranks()), [1] * (d + 1))


@contract('C17', [dict(kind=k, value=v, batch=b, dt=t) for k in KINDS for v in ('ones', 'zeros') for b in (None, 'P')
                  for t in ('int32', 'int64', 'float16')],
          functions=['initializers.ones_like', 'initializers.zeros_like'])
def like_types(B, kind, value, batch, dt):
  """Models of other types."""
  a = B.tt('a', 2, kind, batch, dtype=dt)
  r = getattr(B.t3f, value + '_like')(a)
  raw = [list(s) for s in a.get_raw_shape()]
  B.same_tt('value', r, (B.ones if value == 'ones' else B.zeros)([x for s in raw for x in s]), dtype=B.tf.as_dtype(dt))


@contract('C17', grid(d=[1, 2, 3], kind=KINDS), grid(d=[4], kind=KINDS),
          functions=['initializers.ones_like', 'initializers.zeros_like', 'initializers.eye'])
def neutral(B, d, kind):
  """Neutral elements of the arithmetic they are used in."""
  a = B.tt('a', d, kind)
  B.eq('zero', B.den(a + B.t3f.zeros_like(a)), B.den(a))
  B.eq('one', B.den(a * B.t3f.ones_like(a)), B.den(a))
  if kind == 'matrix':
    ns, ms = [list(s) for s in a.get_raw_shape()]
    dt = B.dtype
    B.eq('left-identity', B.den(B.t3f.matmul(B.t3f.eye(ns, dtype=dt), a)), B.den(a))
    B.eq('right-identity', B.den(B.t3f.matmul(a, B.t3f.eye(ms, dtype=dt))), B.den(a))


# -- random -------------------------------------------------------------------
def _rank_arg(B, d, how):
  if how == 'number':
    r = B.dim('r')
    return r, [1] + [r] * (d - 1) + [1]
  rs = B.ranks('r', d)
  return list(rs), rs


def _random(d, kinds=('tensor', 'matrix')):
  return [dict(d=x, kind=k, form=f, rank=r, batch=b) for x in d for k in kinds
          for f in (('both', 'row', 'col') if k == 'matrix' and x < 3 else ('both',))
          for r in ('number', 'list') for b in (None, 'P')]


@contract('C18', _random([1, 2, 3]), _random([4]),
          functions=['initializers.tensor_with_random_cores', 'initializers.tensor_batch_with_random_cores',
                     'initializers.matrix_with_random_cores', 'initializers.matrix_batch_with_random_cores',
                     'initializers._validate_input_parameters'])
def random_cores(B, d, kind, form, rank, batch):
  """Requested shape, ranks, dtype; every core entry drawn independently with
  the requested mean and deviation."""
  arg, ns, ms = _shape(B, d, kind, form)
  rarg, rs = _rank_arg(B, d, rank)
  mean, std = B.num('mean'), B.num('std')
  name = '%s_%swith_random_cores' % (kind, 'batch_' if batch else '')
  kw = dict(tt_rank=rarg, mean=mean, stddev=std, dtype=B.dtype)
  if batch:
    kw['batch_size'] = B.dim(batch)
  make = lambda: getattr(B.t3f, name)(arg, **kw)
  _check_random(B, make(), ns, ms, rs, batch)
  B.random_cores('distribution', make, mean, std)


def _check_random(B, r, ns, ms, rs, batch):
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r) == (ms is not None))
  if batch:
    B.same('batch-size', r.batch_size, B.dim(batch))
  B.same('shape', [list(s) for s in r.get_raw_shape()], [list(ns)] + ([list(ms)] if ms is not None else []))
  B.same('ranks', list(r.get_tt_ranks()), list(rs))
  if not B.wf('object', r):
    B.stop('malformed')


@contract('C18', _random([1, 2, 3]), _random([4]),
          functions=['initializers.random_tensor', 'initializers.random_tensor_batch', 'initializers.random_matrix',
                     'initializers.random_matrix_batch'])
def random_entries(B, d, kind, form, rank, batch):
  """Entries of the tensor have mean zero and the requested deviation."""
  arg, ns, ms = _shape(B, d, kind, form)
  rarg, rs = _rank_arg(B, d, rank)
  std = B.num('std')
  name = 'random_%s%s' % (kind, '_batch' if batch else '')
  kw = dict(tt_rank=rarg, stddev=std, dtype=B.dtype)
  if batch:
    kw['batch_size'] = B.dim(batch)
  make = lambda: getattr(B.t3f, name)(arg, **kw)
  _check_random(B, make(), ns, ms, rs, batch)
  B.random_variance('distribution', make, std * std)


@contract('C18', [dict(d=d, which=w, form=f, rank=r) for d in (1, 2, 3) for w in ('glorot', 'he', 'lecun')
                  for f in ('both', 'row', 'col') for r in ('number', 'list') if d < 3 or f == 'both'],
          functions=['initializers.glorot_initializer', 'initializers.he_initializer',
                     'initializers.lecun_initializer'])
def layer_initializers(B, d, which, form, rank):
  arg, ns, ms = _shape(B, d, 'matrix', form)
  rarg, rs = _rank_arg(B, d, rank)
  make = lambda: getattr(B.t3f, which + '_initializer')(arg, tt_rank=rarg, dtype=B.dtype)
  _check_random(B, make(), ns, ms, rs, None)
  n_in, n_out = B.prod(ns), B.prod(ms)
  var = {'glorot': lambda: B.ratio(2, n_in + n_out), 'he': lambda: B.ratio(2, n_in),
         'lecun': lambda: B.ratio(1, n_in)}[which]()
  B.random_variance('distribution', make, var)


@contract('C18', [dict(kind=k, batch=b) for k in KINDS for b in (None, 'P')],
          functions=['initializers.random_tensor', 'initializers.random_matrix',
                     'initializers.random_tensor_batch', 'initializers.random_matrix_batch'])
def defaults(B, kind, batch):
  """Default rank two, unit deviation, float32; non-zero means are refused."""
  arg, ns, ms = _shape(B, 3, kind)
  f = getattr(B.t3f, 'random_%s%s' % (kind, '_batch' if batch else ''))
  r = f(arg)
  B.same('ranks', list(r.get_tt_ranks()), [1, 2, 2, 1])
  B.same('dtype', r.dtype, B.tf.float32)
  B.same('batch', r.batch_size if B.is_batch(r) else None, 1 if batch else None)
  B.random_variance('distribution', lambda: f(arg), 1)
  B.raises('non-zero-mean', NotImplementedError, lambda: f(arg, mean=1.))


@contract('C23', [dict(d=2, which=w, bias=b, dtype='float32') for w in ('glorot', 'he', 'lecun') for b in (True, False)],
          functions=['nn.KerasDense.__init__'])
def random_layer_weights(B, d, which, bias):
  """The weights of the layer start from the initializer that was asked for."""
  ns, ms = B.modes('n', d), B.modes('m', d)
  rank = B.dim('r')
  make = lambda: B.t3f.nn.KerasDense(list(ns), list(ms), tt_rank=rank, use_bias=bias,
                                     kernel_initializer=which).matrix
  B.same('ranks', list(make().get_tt_ranks()), [1, rank, 1])
  n_in, n_out = B.prod(ns), B.prod(ms)
  var = {'glorot': lambda: B.ratio(2, n_in + n_out), 'he': lambda: B.ratio(2, n_in),
         'lecun': lambda: B.ratio(1, n_in)}[which]()
  B.random_variance('distribution', make, var)
