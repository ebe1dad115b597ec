"""Changes of representation that must not change the value."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS


def like(B, x, a):
  """x has the shape and the TT-ranks of a."""
  B.same('shape', [list(s) for s in x.get_raw_shape()], [list(s) for s in a.get_raw_shape()])
  B.same('ranks', list(x.get_tt_ranks()), list(a.get_tt_ranks()))


@contract('C20', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P']) + grid(d=[2], kind=KINDS, batch=[None, 'P'], dtype=['float32']),
          grid(d=[4, 5], kind=KINDS, batch=[None, 'P']),
          functions=['ops.renormalize_tt_cores'])
def renormalize(B, d, kind, batch):
  a = B.tt('a', d, kind, batch)
  r = B.t3f.renormalize_tt_cores(a)
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r) == (kind == 'matrix'))
  B.same_tt('same-value', r, B.den(a))
  like(B, r, a)


@contract('C20', grid(d=[2, 3], kind=KINDS, batch=[None, 'P']), replay_only=True, functions=['ops.renormalize_tt_cores'],
          domain='sampled: core norms')
def balanced(B, d, kind, batch):
  """After renormalization all cores have the same norm."""
  np = B.np
  a = B.tt('a', d, kind, batch)
  cs = [c.reshape([c.shape[0], -1] if batch else [1, -1]) for c in B.cores_of(B.t3f.renormalize_tt_cores(a))]
  if min(np.min(np.sum(c ** 2, 1)) for c in [x.reshape([x.shape[0], -1] if batch else [1, -1]) for x in B.cores_of(a)]) < 1e-6:
    return
  n = [np.sqrt(np.sum(c ** 2, axis=1)) for c in cs]
  for k in range(1, d):
    B.eq('equal-norms-%d' % k, n[k], n[0])


@contract('C20', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P'], to=['float32', 'float64'], dtype=['float32', 'float64']),
          functions=['ops.cast'])
def cast(B, d, kind, batch, to):
  a = B.tt('a', d, kind, batch)
  r = B.t3f.cast(a, B.tf.as_dtype(to))
  if to == 'float32':
    B.single()
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r) == (kind == 'matrix'))
  B.same_tt('same-value', r, B.den(a), dtype=B.tf.as_dtype(to))
  like(B, r, a)


@contract('C20', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P'], trainable=[True, False]),
          functions=['variables.get_variable'])
def variable(B, d, kind, batch, trainable):
  a = B.tt('a', d, kind, batch)
  v = B.t3f.get_variable('v', initializer=a, trainable=trainable)
  B.true('kind', B.is_batch(v) == (batch is not None) and B.is_matrix(v) == (kind == 'matrix'))
  B.true('is-a-variable', v.is_variable())
  B.same_tt('initial-value', v, B.den(a))
  like(B, v, a)
  B.same('trainable', [bool(c.trainable) for c in v.tt_cores], [trainable] * d)


@contract('C20', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P']),
          functions=['variables.assign', 'variables.get_variable'])
def assign(B, d, kind, batch):
  """After assignment the variable holds the new value, the source is kept."""
  a, b = B.tt('a', d, kind, batch, r='r'), B.tt('b', d, kind, batch, r='r')
  v = B.t3f.get_variable('v', initializer=a)
  res = B.t3f.assign(v, b)
  B.true('kind', B.is_batch(res) == (batch is not None) and B.is_matrix(res) == (kind == 'matrix'))
  B.same_tt('variable-has-new-value', v, B.den(b))
  B.same_tt('result-has-new-value', res, B.den(b))
  like(B, res, b)
  B.eq('initializer-kept', B.den(a), B.den(a))
  c = B.t3f.assign(v, B.t3f.multiply(v, 2.))
  B.same_tt('self-assignment', v, B.den(b) * 2)


@contract('C20', grid(d=[2, 3], kind=KINDS), functions=['variables.get_variable', 'ops.add', 'ops.full'])
def variables_in_expressions(B, d, kind):
  """Variables denote their current value in every operation."""
  a, b = B.tt('a', d, kind), B.tt('b', d, kind)
  v = B.t3f.get_variable('v', initializer=a)
  B.eq('full', B.t3f.full(v), B.dense(a))
  B.same_tt('sum', v + b, B.den(a) + B.den(b))
  B.same_tt('product', v * b, B.den(a) * B.den(b))
  B.eq('inner', B.t3f.flat_inner(v, b), B.inner(B.den(a), B.den(b)))


@contract('C20', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P']), deep=(),
          functions=['variables.get_variable', 'variables.assign', 'tensor_train_base.name', 'tensor_train_base.op'])
def graph_variables(B, d, kind, batch):
  """In a graph: scopes that reuse variables return the variable made under that
  name, losses of regularizers are collected, assignments are ops."""
  B.held = False
  a, b = B.tt('a', d, kind, batch, r='r'), B.tt('b', d, kind, batch, r='r')
  get = lambda name, **k: B.t3f.get_variable(name, dtype=B.dtype, **k)
  with B.v1_graph() as G:
    va, vb, loss, values = G.tt(a), G.tt(b), [], []

    def penalty(x):
      loss.append(x)
      return B.tf.reduce_sum(x.tt_cores[0]) * 2.
    with G.v1.variable_scope('s'):
      v = get('x', initializer=va, regularizer=penalty)
      u = get('y', initializer=vb)
    w = get('x', initializer=vb)
    with G.v1.variable_scope('s', reuse=True):
      same, other = get('x'), get('y')
      B.raises('unknown-name', ValueError, lambda: get('z'))
    with G.v1.variable_scope('', reuse=True):
      B.true('outer-name', get('x') is w)
      B.raises('unknown-outer-name', ValueError, lambda: get('y'))
    B.raises('no-initializer', ValueError, lambda: get('z'))
    B.true('reused', same is v and other is u)
    B.true('name', v.name == 's/x' and u.name == 's/y' and w.name == 'x')
    got = G.v1.get_collection(G.v1.GraphKeys.REGULARIZATION_LOSSES)
    B.true('one-penalty', len(got) == 1 and len(loss) == 1 and loss[0] is v)
    G.start()
    B.eq('penalty', G.value(got[0]), B.sum(B.val(a.tt_cores[0])) * 2.)
    for n, x, y in (('first', v, a), ('second', u, b), ('third', w, b)):
      B.true(n + '/variable', x.is_variable() and B.is_batch(x) == (batch is not None))
      values.append((n, G.value_tt(x), y))
    G.run(B.t3f.assign(w, va))
    values += [('assigned', G.value_tt(w), a), ('others-kept', G.value_tt(u), b)]
  for n, x, y in values:
    B.same_tt(n, x(), B.den(y))


@contract('C20', [dict(to=t, kind=k, batch=b) for t in ('int32', 'int64', 'float32', 'float64', 'float16')
                  for k in KINDS for b in (None, 'P')], replay_only=True, deep=(),
          functions=['ops.cast'], domain='sampled: objects with integer entries, to and from integer types')
def cast_integers(B, to, kind, batch):
  np, tf = B.np, B.tf
  a = B.tt('a', 3, kind, batch)
  dt = tf.as_dtype(to)
  cores = [np.clip(np.round(2 * B.val(c)), -50, 50) for c in a.tt_cores]
  if to in ('int32', 'int64', 'float64'):
    # beyond what single precision can tell apart
    cores[0] = cores[0] + 2. ** 30 + 1
  make = B.t3f.TensorTrainBatch if batch else B.t3f.TensorTrain
  for src in (tf.float64, tf.float32, tf.int32, tf.int64):
    if src == tf.float32 and np.max(np.abs(cores[0])) > 2. ** 24:
      continue
    x = make([tf.constant(c, dtype=src) for c in cores])
    r = B.t3f.cast(x, dt)
    B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r) == (kind == 'matrix'))
    if not B.wf('cast', r, dtype=dt):
      B.stop('malformed')
    for k, (c, w) in enumerate(zip(r.tt_cores, cores)):
      B.eq('core-%d' % k, B.val(c), w)


REASSIGNED = {
    'full': lambda B, v, b: (B.t3f.full(v), B.dense(b)),
    'sum': lambda B, v, b: (v + b, B.den(b) * 2),
    'product': lambda B, v, b: (v * b, B.den(b) * B.den(b)),
    'multiple': lambda B, v, b: (v * 3., B.den(b) * 3),
    'inner': lambda B, v, b: (B.t3f.flat_inner(v, b), B.inner(B.den(b), B.den(b))),
    'norm': lambda B, v, b: (B.t3f.frobenius_norm_squared(v), B.inner(B.den(b), B.den(b))),
    'left': lambda B, v, b: (B.t3f.orthogonalize_tt_cores(v), B.den(b)),
    'right': lambda B, v, b: (B.t3f.orthogonalize_tt_cores(v, left_to_right=False), B.den(b)),
    'cast': lambda B, v, b: (B.t3f.cast(v, B.dtype), B.den(b)),
    'renormalized': lambda B, v, b: (B.t3f.renormalize_tt_cores(v), B.den(b)),
    'batch': lambda B, v, b: (B.t3f.expand_batch_dim(v), B.expand(B.den(b), 0)),
    'round': lambda B, v, b: (B.t3f.round(v), B.den(b)),
    'project': lambda B, v, b: (B.t3f.project(b, v), B.den(b)),
    'project_sum': lambda B, v, b: (B.t3f.project_sum(v, v), B.den(b)),
    'project_onto': lambda B, v, b: (B.t3f.project(v, b), B.den(b)),
    'slice': lambda B, v, b: (v[(slice(None),) * v.ndims()], B.den(b)),
}
MATRIX_ONLY = {
    'transpose': lambda B, v, b: (B.t3f.transpose(B.t3f.transpose(v)), B.den(b)),
}


BY_PROPERTY = {
    'C01': ('full',), 'C03': ('sum',), 'C04': ('product', 'multiple'), 'C05': ('transpose',), 'C06': ('inner', 'norm'),
    'C09': ('slice',), 'C10': ('left', 'right'), 'C11': ('round',), 'C13': ('project', 'project_sum', 'project_onto'),
    'C20': sorted(REASSIGNED) + sorted(MATRIX_ONLY),
}


def _reassigned(B, kind, op):
  """Operations see the value a variable has now, whatever it had before."""
  sizes = dict(n=[2, 3, 2], m=[2, 1, 3], r=[1, 2, 2, 1])
  a, b, c = (B.tt(x, kind=kind, **sizes) for x in 'abc')
  v = B.t3f.get_variable('v', initializer=a)
  f = dict(REASSIGNED, **MATRIX_ONLY)[op]

  def compare(name, x):
    got, want = f(B, v, x)
    B.eq(name, B.den(got) if hasattr(got, 'tt_cores') else got, want)
  compare('first', a)
  B.t3f.assign(v, b)
  compare('assigned', b)
  v.tt_cores[1].assign(a.tt_cores[1])
  d = B.t3f.TensorTrain([b.tt_cores[0], a.tt_cores[1], b.tt_cores[2]])
  compare('one-core', d)
  B.t3f.assign(v, c)
  compare('assigned-again', c)


def _register(prop, ops):
  def fn(B, kind, op):
    _reassigned(B, kind, op)
  fn.__name__ = 'reassigned_' + prop
  fn.__module__ = __name__
  contract(prop, [dict(kind=k, op=o) for k in KINDS for o in ops
                  if (k == 'matrix' or o not in MATRIX_ONLY) and (k == 'tensor' or o != 'slice')],
           functions=['variables.assign', 'variables.get_variable'])(fn)


for _p, _ops in sorted(BY_PROPERTY.items()):
  _register(_p, _ops)
