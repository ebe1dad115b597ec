"""Kronecker-structured matrices (TT-matrices of rank one)."""
from t3v.contracts import contract, grid


def kron(B, d, batch, cols=None, **kw):
  one = [1] * (d + 1)
  if kw.get('spd') or kw.get('dominant'):
    ns = B.modes('n', d)
    bs = [] if batch is None else [B.dim(batch)]
    cores = [B.tensor('a.%d' % k, bs + [1, ns[k], ns[k], 1], matrix_shape=bs + [ns[k], ns[k]], **kw) for k in range(d)]
    return B.tt_from_cores(cores, ns, ns, one, bs[0] if bs else None)
  return B.tt('a', d, 'matrix', batch, n='n', m=cols or 'n', r=one)


def factors(B, a):
  """The d small matrices [b?, n, n]."""
  o = 1 if B.is_batch(a) else 0
  return [B.squeeze(B.squeeze(c, c.ndim - 1), o) for c in B.cores_of(a)]


def sizes(B, a):
  return [list(s) for s in a.get_raw_shape()][0]


@contract('C16', grid(d=[1, 2, 3], batch=[None, 'P']), grid(d=[4], batch=[None, 'P']),
          functions=['kronecker.determinant', 'kronecker._is_kron'])
def determinant(B, d, batch):
  a = kron(B, d, batch, dominant=True)
  r = B.t3f.kronecker.determinant(a)
  ns = sizes(B, a)
  want = None
  for k, f in enumerate(factors(B, a)):
    others = B.prod(ns[:k] + ns[k + 1:])
    t = B.pow(B.fn('det', f), others)
    want = t if want is None else want * t
  B.eq('product-rule', r, want)


@contract('C16', grid(d=[1, 2, 3], batch=[None, 'P']), grid(d=[4], batch=[None, 'P']),
          functions=['kronecker.slog_determinant'])
def slogdet(B, d, batch):
  a = kron(B, d, batch, dominant=True)
  s, l = B.t3f.kronecker.slog_determinant(a)
  ns = sizes(B, a)
  sign, logd = None, None
  for k, f in enumerate(factors(B, a)):
    others = B.prod(ns[:k] + ns[k + 1:])
    det = B.fn('det', f)
    t = B.pow(B.fn('sign', det), others)
    u = B.fn('log', B.fn('abs', det)) * others
    sign = t if sign is None else sign * t
    logd = u if logd is None else logd + u
  B.eq('sign', s, sign)
  B.eq('log-absolute-value', l, logd)


@contract('C16', grid(d=[1, 2, 3], batch=[None, 'P']), grid(d=[4], batch=[None, 'P']), functions=['kronecker.inv'])
def inverse(B, d, batch):
  a = kron(B, d, batch, dominant=True)
  r = B.t3f.kronecker.inv(a)
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r))
  if not B.wf('inverse', r, shape=[list(s) for s in a.get_raw_shape()]):
    B.stop('malformed')
  o = ['b'] if batch else []
  i = [('i', k) for k in range(d)]
  j = [('j', k) for k in range(d)]
  k_ = [('k', k) for k in range(d)]
  prod = B.contract([o + i + j, o + j + k_], [B.den(a), B.den(r)], o + i + k_)
  e = None
  ns = sizes(B, a)
  e = B.contract([[i[k], k_[k]] for k in range(d)], [B.eye(n) for n in ns], i + k_)
  if batch:
    e = B.expand(e, 0) * B.ones([B.dim(batch)] + [1] * (2 * d))
  B.eq('a*inverse-is-identity', prod, e)


@contract('C16', grid(d=[1, 2, 3], batch=[None, 'P']), grid(d=[4], batch=[None, 'P']), functions=['kronecker.cholesky'])
def cholesky(B, d, batch):
  a = kron(B, d, batch, spd=True)
  r = B.t3f.kronecker.cholesky(a)
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r))
  if not B.wf('factor', r, shape=[list(s) for s in a.get_raw_shape()]):
    B.stop('malformed')
  o = ['b'] if batch else []
  i = [('i', k) for k in range(d)]
  j = [('j', k) for k in range(d)]
  k_ = [('k', k) for k in range(d)]
  v = B.den(r)
  B.eq('L*L^T-is-a', B.contract([o + i + j, o + k_ + j], [v, v], o + i + k_), B.den(a))
  for k, (x, y) in enumerate(zip(factors(B, r), factors(B, a))):
    B.eq('factor-%d-is-triangular' % k, x, B.fn('chol', y))


@contract('C16', grid(d=[1, 2, 3], batch=[None, 'P'], op=['determinant', 'slog_determinant', 'inv', 'cholesky']),
          functions=['kronecker._is_kron', 'kronecker.determinant', 'kronecker.slog_determinant', 'kronecker.inv',
                     'kronecker.cholesky'])
def refuses(B, d, batch, op):
  """Objects that are not Kronecker products of square matrices are refused."""
  f = getattr(B.t3f.kronecker, op)
  if d > 1:
    k = d // 2
    x = B.dim('x')
    B.require('<', 1, x)
    r = [1] * (d + 1)
    r[k] = x
    a = B.tt('a', d, 'matrix', batch, n='n', m='n', r=r)
    B.raises('higher-rank', ValueError, lambda: f(a))
  t = B.tt('t', d, 'tensor', batch, r=[1] * (d + 1))
  B.raises('not-a-matrix', ValueError, lambda: f(t))
  m = B.modes('n', d)
  q = B.dim('q')
  B.require('!=', q, m[-1])
  c = B.tt('c', d, 'matrix', batch, n=m, m=m[:-1] + [q], r=[1] * (d + 1))
  B.raises('not-square', ValueError, lambda: f(c))


@contract('C16', grid(d=[1, 2, 3], batch=[None, 'P']), replay_only=True,
          functions=['kronecker.determinant', 'kronecker.slog_determinant', 'kronecker.cholesky', 'kronecker.inv'],
          domain='sampled: against dense linear algebra')
def dense_oracle(B, d, batch):
  np = B.np
  a = kron(B, d, batch, dominant=True)
  m = B.dense(a)
  s, l = np.linalg.slogdet(m)
  s2, l2 = B.t3f.kronecker.slog_determinant(a)
  B.eq('sign', s2, s)
  B.eq('log-determinant', l2, l)
  B.eq('determinant', B.t3f.kronecker.determinant(a), s * np.exp(l))
  B.eq('inverse', B.dense(B.t3f.kronecker.inv(a)), np.linalg.inv(m))
