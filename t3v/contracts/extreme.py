"""Objects far beyond the size of any dense array: sampled, with oracles that
multiply numbers per core."""
from t3v.contracts import contract

SHAPES = ('many', 'odd', 'mixed')


def sizes(B, shape):
  """Mode sizes whose product exceeds every machine integer."""
  if shape == 'many':
    return [2] * 70
  if shape == 'odd':
    return [3] * 41
  r = B.rng('sizes')
  return [int(x) for x in r.integers(1, 9, size=36)] + [8] * 6


def factors(B, name, ns, ms=None):
  """One small array per core, entries near one in size."""
  np = B.np
  out = []
  for k, n in enumerate(ns):
    dims = [n] if ms is None else [n, ms[k]]
    r = B.rng('%s.%d' % (name, k))
    x = r.uniform(.5, 1.5, size=dims) * r.choice([-1., 1.], size=dims)
    out.append(x / np.sqrt(np.mean(x ** 2)))
  return out


def rank_one(B, fs):
  cores = [B.tf.constant(f.reshape((1,) + f.shape + (1,)), dtype=B.dtype) for f in fs]
  return B.t3f.TensorTrain(cores)


def unit(fs, np):
  return [f / np.sqrt(np.sum(f ** 2)) for f in fs]


def entry(B, fs, idx):
  return B.np.prod([f[i] for f, i in zip(fs, idx)])


def draw(B, name, ns, count=20):
  r = B.rng(name)
  return [[int(r.integers(n)) for n in ns] for _ in range(count)]


OPTS = dict(replay_only=True, deep=(), large=False, domain='sampled: objects with more than 2^63 elements')


@contract('C02', [dict(shape=s, kind=k) for s in SHAPES for k in ('tensor', 'matrix')],
          functions=['tensor_train_base.get_shape', 'tensor_train_base.get_raw_shape', 'tensor_train_base.ndims'],
          **OPTS)
def metadata(B, shape, kind):
  ns = sizes(B, shape)
  ms = list(reversed(ns)) if kind == 'matrix' else None
  a = rank_one(B, factors(B, 'a', ns, ms))
  B.wf('object', a, shape=[ns] + ([ms] if ms else []))


@contract(('C03', 'C04', 'C09'), [dict(shape=s) for s in SHAPES],
          functions=['ops.add', 'ops.multiply', 'ops.gather_nd'], **OPTS)
def elementwise(B, shape):
  """Entries of sums and products."""
  ns = sizes(B, shape)
  fa, fb = factors(B, 'a', ns), factors(B, 'b', ns)
  a, b = rank_one(B, fa), rank_one(B, fb)
  idx = draw(B, 'idx', ns)
  va = B.np.array([entry(B, fa, i) for i in idx])
  vb = B.np.array([entry(B, fb, i) for i in idx])
  at = lambda x: B.t3f.gather_nd(x, B.tf.constant(idx))
  B.eq('gathered', at(a), va)
  B.eq('sum', at(a + b), va + vb)
  B.eq('difference', at(a - b), va - vb)
  B.eq('product', at(a * b), va * vb)
  B.eq('multiple', at(a * -3.), va * -3.)
  B.eq('element', a[tuple(idx[0][:-1]) + (slice(None),)].tt_cores[0].numpy().ravel(),
       entry(B, fa[:-1], idx[0][:-1]) * fa[-1])


@contract(('C06', 'C08'), [dict(shape=s, kind=k) for s in SHAPES for k in ('tensor', 'matrix')],
          functions=['ops.flat_inner', 'ops.frobenius_norm_squared', 'batch_ops.gram_matrix'], **OPTS)
def inner_products(B, shape, kind):
  np = B.np
  ns = sizes(B, shape)
  ms = list(reversed(ns)) if kind == 'matrix' else None
  fa = unit(factors(B, 'a', ns, ms), np)
  fb = [x + y for x, y in zip(fa, unit(factors(B, 'b', ns, ms), np))]
  a, b = rank_one(B, fa), rank_one(B, fb)
  dot = lambda x, y: np.prod([np.sum(p * q) for p, q in zip(x, y)])
  B.eq('inner', B.t3f.flat_inner(a, b), dot(fa, fb))
  B.eq('norm', B.t3f.frobenius_norm_squared(b), dot(fb, fb))
  t = B.t3f.concat_along_batch_dim([B.t3f.expand_batch_dim(a), B.t3f.expand_batch_dim(b)])
  B.eq('gram', B.t3f.gram_matrix(t), np.array([[dot(fa, fa), dot(fa, fb)], [dot(fb, fa), dot(fb, fb)]]))


@contract('C06', [dict(shape=s) for s in ('many', 'odd')],
          functions=['ops.tt_sparse_flat_inner', 'utils.unravel_index', 'ops.flat_inner'], **OPTS)
def sparse(B, shape):
  """A sparse matrix with as many rows and columns as indices can name."""
  np = B.np
  ns = [2] * 40 if shape == 'many' else [3, 5, 7, 3, 5, 3, 2, 3, 5, 7, 3, 5, 3]
  ms = list(reversed(ns))
  fs = factors(B, 'a', ns, ms)
  a = rank_one(B, fs)
  rows, cols = draw(B, 'rows', ns, 12), draw(B, 'cols', ms, 12)

  def flat(i, sizes):
    r = 0
    for x, n in zip(i, sizes):
      r = r * n + x
    return r
  at = sorted((flat(r, ns), flat(c, ms), tuple(r), tuple(c)) for r, c in zip(rows, cols))
  vals = B.rng('values').normal(size=len(at))
  sp = B.tf.SparseTensor(np.array([x[:2] for x in at], dtype=np.int64), B.tf.constant(vals, B.dtype),
                         np.array([B.prod(ns), B.prod(ms)], dtype=np.int64))
  want = sum(v * entry(B, fs, list(zip(x[2], x[3]))) for v, x in zip(vals, at))
  B.eq('inner', B.t3f.flat_inner(a, sp), want)


@contract(('C05', 'C07'), [dict(shape=s) for s in SHAPES],
          functions=['ops.matmul', 'ops.transpose', 'ops.bilinear_form', 'ops.quadratic_form'], **OPTS)
def operators(B, shape):
  np = B.np
  ns = sizes(B, shape)
  ms = list(reversed(ns))
  fa = unit(factors(B, 'a', ns, ms), np)
  fx = unit(factors(B, 'x', ns, [1] * len(ns)), np)
  fy = unit(factors(B, 'y', ms, [1] * len(ns)), np)
  # aligned, so that the value of the form is not tiny
  fa = [p @ q.T + .3 * f for f, p, q in zip(fa, fx, fy)]
  a, x, y = rank_one(B, fa), rank_one(B, fx), rank_one(B, fy)
  want = np.prod([(p.T @ f @ q)[0, 0] for f, p, q in zip(fa, fx, fy)])
  B.eq('form', B.t3f.bilinear_form(a, x, y), want)
  p = B.t3f.matmul(a, y)
  B.wf('product', p, shape=[ns, [1] * len(ns)])
  for k, c in enumerate(p.tt_cores):
    B.eq('product-%d' % k, c[0, :, :, 0], fa[k] @ fy[k])
  t = B.t3f.transpose(a)
  B.wf('transposed', t, shape=[ms, ns])
  B.eq('transposed-form', B.t3f.bilinear_form(t, y, x), want)


@contract('C16', [dict(ns=s, dtype=t) for s in ([8] * 11, [3] * 20, [11] * 7, [3] * 18, [2] * 40, [5] * 12, [4, 3] * 9, [7] * 9)
                  for t in ('float64', 'float32')],
          functions=['kronecker.slog_determinant', 'kronecker.inv', 'kronecker.cholesky', 'kronecker.determinant'], **OPTS)
def kronecker(B, ns):
  np = B.np
  # one or three negative determinants
  r = B.rng('signs')
  neg = set(int(i) for i in r.choice(len(ns), size=int(r.choice([1, 3])), replace=False))
  fs, spd = [], []
  for k, n in enumerate(ns):
    x = np.eye(n) + .1 * B.rng('f%d' % k).normal(size=(n, n)) / n
    if k in neg:
      x[0] *= -1
    fs.append(x)
    spd.append(np.eye(n) + .2 * x @ x.T)
  a = rank_one(B, fs)
  sign, logd = 1, 0
  total = B.prod(ns)
  for f, n in zip(fs, ns):
    s, l = np.linalg.slogdet(f)
    sign *= int(s) ** (total // n)
    logd += l * (total // n)
  s, l = B.t3f.kronecker.slog_determinant(a)
  B.eq('sign', s, float(sign))
  B.eq('log-determinant', l, logd)
  flips = [np.diag([-1.] + [1.] * (n - 1)) if k in neg else np.eye(n) for k, n in enumerate(ns)]
  B.true('finite-determinant', bool(np.isfinite(B.val(B.t3f.kronecker.determinant(rank_one(B, flips))))))
  for k, (c, f) in enumerate(zip(B.t3f.kronecker.inv(a).tt_cores, fs)):
    B.eq('inverse-%d' % k, c[0, :, :, 0], np.linalg.inv(f))
  for k, (c, f) in enumerate(zip(B.t3f.kronecker.cholesky(rank_one(B, spd)).tt_cores, spd)):
    B.eq('cholesky-%d' % k, c[0, :, :, 0], np.linalg.cholesky(f))


@contract('C18', [], [dict(which=w, shape=s) for w in ('glorot', 'he', 'lecun', 'matrix', 'tensor') for s in ('many', 'odd')],
          functions=['initializers.glorot_initializer', 'initializers.he_initializer', 'initializers.lecun_initializer',
                     'initializers.random_matrix', 'initializers.random_tensor'], **OPTS)
def random_objects(B, which, shape):
  ns = sizes(B, shape)
  ms = [2] * len(ns)
  n_in, n_out = float(B.prod(ns)), float(B.prod(ms))
  if which == 'tensor':
    make, var = lambda: B.t3f.random_tensor(ns, tt_rank=5, stddev=.5, dtype=B.dtype), .25
  elif which == 'matrix':
    make, var = lambda: B.t3f.random_matrix([ns, ms], tt_rank=5, stddev=.5, dtype=B.dtype), .25
  else:
    make = lambda: getattr(B.t3f, which + '_initializer')([ns, ms], tt_rank=5, dtype=B.dtype)
    var = {'glorot': 2. / (n_in + n_out), 'he': 2. / n_in, 'lecun': 1. / n_in}[which]
  B.random_variance('distribution', make, var, enough=1200)


@contract('C17', [dict(shape=s) for s in SHAPES],
          functions=['initializers.eye', 'initializers.matrix_ones', 'initializers.tensor_ones'], **OPTS)
def constants(B, shape):
  np = B.np
  ns = sizes(B, shape)
  e = B.t3f.eye(ns, dtype=B.dtype)
  B.wf('identity', e, shape=[ns, ns])
  for k, c in enumerate(e.tt_cores):
    B.eq('identity-%d' % k, c[0, :, :, 0], np.eye(ns[k]))
  o = B.t3f.tensor_ones(ns, dtype=B.dtype)
  B.wf('ones', o, shape=[ns])
  B.eq('ones', B.t3f.gather_nd(o, B.tf.constant(draw(B, 'i', ns))), np.ones(20))


@contract(('C10', 'C11'), [dict(shape=s) for s in SHAPES],
          functions=['decompositions.orthogonalize_tt_cores', 'decompositions.round'], **OPTS)
def sweeps(B, shape):
  """The sum of two objects is orthogonalized and rounded back."""
  np = B.np
  ns = sizes(B, shape)
  fa = unit(factors(B, 'a', ns), np)
  a = rank_one(B, fa)
  b = rank_one(B, unit(factors(B, 'b', ns), np))
  s = a + b * .5
  for left in (True, False):
    o = B.t3f.orthogonalize_tt_cores(s, left_to_right=left)
    d = s - o
    B.zero('same-value-%s' % left, B.t3f.frobenius_norm_squared(d))
  r = B.t3f.round(a + b * .5 + a, max_tt_rank=2)
  B.true('ranks', max(r.get_tt_ranks().as_list()) <= 2)
  B.zero('rounded', B.t3f.frobenius_norm_squared(r - a * 2 - b * .5))
