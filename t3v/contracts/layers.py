"""Regularizers and the Keras layer."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS


@contract('C23', grid(d=[1, 2, 3], kind=KINDS, dtype=['float32', 'float64']),
          functions=['regularizers.l2_regularizer', 'regularizers.cores_regularizer'])
def regularizers(B, d, kind):
  a = B.tt('a', d, kind)
  s = B.num('s')
  v = B.den(a)
  B.eq('l2', B.t3f.l2_regularizer(s)(a), B.inner(v, v) * s)
  reg = B.t3f.cores_regularizer(lambda c: B.tf.reduce_sum(c * c), s)
  want = None
  for c in B.cores_of(a):
    t = B.inner(c, c)
    want = t if want is None else want + t
  B.eq('cores', reg(a), want * s)
  B.true('zero-scale-l2', B.t3f.l2_regularizer(0.)(a) is None)
  B.true('zero-scale-cores', B.t3f.cores_regularizer(lambda c: B.tf.reduce_sum(c), 0.)(a) is None)
  B.raises('negative-scale', ValueError, lambda: B.t3f.l2_regularizer(-0.5))
  B.raises('integer-scale', ValueError, lambda: B.t3f.l2_regularizer(1))
  B.raises('negative-scale-cores', ValueError, lambda: B.t3f.cores_regularizer(None, -0.5))
  B.raises('integer-scale-cores', ValueError, lambda: B.t3f.cores_regularizer(None, 1))


@contract('C23', [dict(d=d, bias=b, act=a, init=i, dtype='float32') for d in (1, 2, 3) for b in (True, False)
                  for a in (None, 'linear', 'relu', 'tanh', 'sigmoid', 'softplus', 'elu') for i in ('glorot', 'he', 'lecun')
                  if (i == 'glorot' or (d == 2 and a is None)) and (d == 2 or a in (None, 'relu', 'tanh'))],
          functions=['nn.KerasDense.__init__', 'nn.KerasDense.call', 'nn.KerasDense.compute_output_shape'])
def dense_layer(B, d, bias, act, init):
  """activation(x W + b) with W the dense value of the TT-matrix."""
  ns, ms = B.modes('n', d), B.modes('m', d)
  kw = dict(kernel_initializer=init, use_bias=bias, activation=act, tt_rank=B.dim('r'))
  if bias:
    kw['bias_initializer'] = B.num('b0')
  layer = B.t3f.nn.KerasDense(list(ns), list(ms), **kw)
  p = B.dim('p')
  x = B.tensor('x', [p, B.prod(ns)])
  y = layer(x)
  W = B.dense(layer.matrix)
  B.same('matrix-shape', [list(s) for s in layer.matrix.get_raw_shape()], [ns, ms])
  want = B.einsum('pi,ij->pj', x, W)
  if bias:
    want = want + B.val(B.ones([B.prod(ms)]) * kw['bias_initializer'])
  if act not in (None, 'linear'):
    want = B.fn('act_' + act, want)
  B.eq('output', y, want)
  B.same('output-shape', list(layer.compute_output_shape((p, B.prod(ns)))), [p, B.prod(ms)])
  B.same('trainable', [bool(c.trainable) for c in layer.matrix.tt_cores], [True] * d)


@contract('C23', grid(d=[1, 2, 3], act=[None, 'relu'], dtype=['float32']),
          functions=['nn.KerasDense.call'])
def trained_layer(B, d, act):
  """After its variables were given other values the layer applies those."""
  ns, ms = B.modes('n', d), B.modes('m', d)
  layer = B.t3f.nn.KerasDense(list(ns), list(ms), activation=act, tt_rank=B.dim('r'))
  x = B.tensor('x', [B.dim('p'), B.prod(ns)])
  layer(x)
  rs = [1] + [B.dim('r')] * (d - 1) + [1]
  cores = [B.tensor('w%d' % k, [rs[k], ns[k], ms[k], rs[k + 1]]) for k in range(d)]
  for v, c in zip(layer.matrix.tt_cores, cores):
    v.assign(c)
  bias = B.tensor('b', [B.prod(ms)])
  layer.b.assign(bias)
  y = layer(x)
  want = B.einsum('pi,ij->pj', x, B.dense(B.tt_from_cores(cores, ns, ms, rs))) + B.val(bias)
  B.eq('output', y, B.fn('act_' + act, want) if act else want)


@contract('C23', [dict(act=a, bias=b, dtype='float32') for b in (True, False)
                  for a in ('softmax', 'exponential', 'leaky_relu', 'hard_sigmoid', 'softsign', 'silu', 'gelu', 'selu', 'own')],
          functions=['nn.KerasDense.call'], replay_only=True, deep=(), domain='sampled: all activations of Keras')
def activations(B, act, bias):
  ns, ms = [2, 3], [3, 2]
  f = (lambda x: x * x - 1.) if act == 'own' else act
  layer = B.t3f.nn.KerasDense(ns, ms, use_bias=bias, activation=f, bias_initializer=B.num('b0'))
  x = B.tensor('x', [B.dim('p'), 6])
  want = B.einsum('pi,ij->pj', x, B.dense(layer.matrix)) + (B.num('b0') if bias else 0.)
  want = B.tf.constant(want, B.tf.float32)
  B.eq('output', layer(x), f(want) if act == 'own' else B.tf.keras.activations.get(act)(want))


@contract('C23', [dict(bad='kernel')], functions=['nn.KerasDense.__init__'])
def layer_rejects(B, bad):
  B.raises('unknown-initializer', ValueError, lambda: B.t3f.nn.KerasDense([2, 3], [3, 2], kernel_initializer='nope'))
