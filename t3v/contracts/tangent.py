"""Riemannian geometry: tangent spaces of fixed-rank manifolds."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS
from t3v.contracts.products import mat, matprod, as_batch


def bases(B, x):
  """Orthonormal left and right interfaces of x, from the sweeps whose contract
  is C10: left[k] is [modes of cores < k.., r], right[k] is [r, modes of cores >= k..]."""
  l = B.t3f.orthogonalize_tt_cores(x)
  r = B.t3f.orthogonalize_tt_cores(l, left_to_right=False)
  return B.cores_of(l), B.cores_of(r)


class Frame(object):
  """Contractions of values [b?, modes.. grouped per core] with the interfaces."""

  def __init__(self, B, x):
    self.B = B
    self.d = x.ndims()
    self.kind = 'matrix' if B.is_matrix(x) else 'tensor'
    self.L, self.R = bases(B, x)

  def core_modes(self, k, tag=''):
    return [('n' + tag, k)] + ([('m' + tag, k)] if self.kind == 'matrix' else [])

  def labels(self, batch):
    """Axis labels of a value in the layout of B.den."""
    out = [('n', k) for k in range(self.d)]
    if self.kind == 'matrix':
      out += [('m', k) for k in range(self.d)]
    return (['b'] if batch else []) + out

  def chain(self, side, lo, hi, tag, rk):
    """(labels, cores) of consecutive cores; rank labels carry rk."""
    cores = self.L if side == 'left' else self.R
    return ([[(rk, k)] + self.core_modes(k, tag) + [(rk, k + 1)] for k in range(lo, hi)], cores[lo:hi])

  def apply(self, v, batch, lo, hi):
    """(P_left over cores < lo) x I x (P_right over cores >= hi) applied to v.

    The sums are arranged so that each side is L (L^T v)."""
    B = self.B
    lab = self.labels(batch)
    # L^T v and R^T v on the chosen cores: modes replaced by the interface ranks
    ls, cs = [lab], [v]
    a, c = self.chain('left', 0, lo, '', 'l')
    ls, cs = ls + a, cs + list(c)
    a, c = self.chain('right', hi, self.d, '', 'r')
    ls, cs = ls + a, cs + list(c)
    mid = [x for k in range(lo, hi) for x in self.core_modes(k)]
    pre = ['b'] if batch else []
    ends = ([('l', lo)] if lo > 0 else []) + ([('r', hi)] if hi < self.d else [])
    red = B.contract(ls, cs, pre + ends + mid)
    # back
    ls, cs = [pre + ends + mid], [red]
    a, c = self.chain('left', 0, lo, '', 'l')
    ls, cs = ls + a, cs + list(c)
    a, c = self.chain('right', hi, self.d, '', 'r')
    ls, cs = ls + a, cs + list(c)
    return B.contract(ls, cs, lab)

  def project(self, v, batch=False):
    """Orthogonal projection of v on the tangent space."""
    total = None
    for k in range(self.d):
      t = self.apply(v, batch, k, k + 1)
      total = t if total is None else total + t
      if k < self.d - 1:
        total = total - self.apply(v, batch, k + 1, k + 1)
    return total

  def tangent(self, deltas, batch=False):
    """Sum over k of L_{<k} delta_k R_{>k}."""
    B = self.B
    pre = ['b'] if batch else []
    total = None
    for k in range(self.d):
      ls, cs = [pre + [('l', k)] + self.core_modes(k) + [('r', k + 1)]], [deltas[k]]
      a, c = self.chain('left', 0, k, '', 'l')
      ls, cs = ls + a, cs + list(c)
      a, c = self.chain('right', k + 1, self.d, '', 'r')
      ls, cs = ls + a, cs + list(c)
      t = B.contract(ls, cs, self.labels(batch))
      total = t if total is None else total + t
    return total


def attainable(B, x):
  """Precondition: no rank exceeds what the mode sizes allow."""
  r = list(x.get_tt_ranks())
  raw = [list(s) for s in x.get_raw_shape()]
  n = [B.prod([s[k] for s in raw]) for k in range(x.ndims())]
  for k in range(1, x.ndims()):
    B.require('<=', r[k], r[k - 1] * n[k - 1])
    B.require('<=', r[k], n[k] * r[k + 1])


def ok(B, name, r, where, batch):
  B.true(name + '/kind', B.is_batch(r) == batch and B.is_matrix(r) == B.is_matrix(where))
  B.true(name + '/remembers-the-point', getattr(r, 'projection_on', None) is where)
  if not B.wf(name, r, shape=[list(s) for s in where.get_raw_shape()]):
    B.stop('malformed')
  for k in range(1, where.ndims()):
    B.le('%s/at-most-twice-the-rank-%d' % (name, k), r.get_tt_ranks()[k], where.get_tt_ranks()[k] * 2)


@contract('C13', grid(d=[2, 3], kind=KINDS, batch=[None, 'P']) + grid(d=[2], kind=['tensor'], batch=[None], dtype=['float32']),
          grid(d=[4], kind=KINDS, batch=[None, 'P']),
          functions=['riemannian.project'])
def project(B, d, kind, batch):
  z, x = B.tt('z', d, kind, batch), B.tt('x', d, kind)
  r = B.t3f.project(z, x)
  ok(B, 'projection', r, x, batch is not None)
  B.eq('value', B.den(r), Frame(B, x).project(B.den(z), batch is not None))


@contract('C13', grid(d=[2, 3], kind=KINDS), grid(d=[4], kind=KINDS), functions=['riemannian.project'])
def is_projection(B, d, kind):
  """Tangent vectors are fixed, the residual is orthogonal to the tangent
  space, the point itself is tangent."""
  z, x = B.tt('z', d, kind), B.tt('x', d, kind)
  f = Frame(B, x)
  B.eq('point', B.den(B.t3f.project(x, x)), B.den(x))
  p = B.den(B.t3f.project(z, x))
  for k in range(d):
    lc, rc = f.L[k], f.R[k]
    w = B.tensor('w.%d' % k, [lc.shape[0]] + list(lc.shape)[1:-1] + [rc.shape[-1]])
    cores = f.L[:k] + [B.val(w)] + f.R[k + 1:]
    ls = ([[('l', j)] + f.core_modes(j) + [('l', j + 1)] for j in range(k)] +
          [[('l', k)] + f.core_modes(k) + [('r', k + 1)]] +
          [[('r', j)] + f.core_modes(j) + [('r', j + 1)] for j in range(k + 1, d)])
    t = B.contract(ls, cores, f.labels(False))
    B.eq('residual-orthogonal-%d' % k, B.inner(B.den(z), t), B.inner(p, t))


@contract('C13', grid(d=[2, 3], kind=KINDS), grid(d=[4], kind=KINDS), replay_only=True,
          functions=['riemannian.project'],
          domain='sampled: attainable ranks, generic point')
def independent_oracle(B, d, kind):
  """Against a projector built from the point's own cores only."""
  np = B.np
  z, x = B.tt('z', d, kind), B.tt('x', d, kind)
  attainable(B, x)
  cores = B.cores_of(x)
  cols = []
  for k in range(d):
    c = cores[k]
    size = int(np.prod(c.shape))
    for i in range(size):
      e = np.zeros(size)
      e[i] = 1
      ls = [[('l', j), ('n', j)] + ([('m', j)] if kind == 'matrix' else []) + [('l', j + 1)] for j in range(d)]
      out = [('n', j) for j in range(d)] + ([('m', j) for j in range(d)] if kind == 'matrix' else [])
      cols.append(B.contract(ls, cores[:k] + [e.reshape(c.shape)] + cores[k + 1:], out).ravel())
  J = np.stack(cols, 1)
  u, s, _ = np.linalg.svd(J, full_matrices=False)
  rank = int(np.sum(s > 1e-9 * s[0]))
  # the point has the stated ranks, not smaller ones
  B.require('==', rank, sum(c.size for c in cores) - sum(c.shape[0] ** 2 for c in cores[1:]))
  gap = s[rank - 1] / s[0]
  if gap < 1e-5:
    return
  u = u[:, :rank]
  v = B.den(z).ravel()
  want = (u @ (u.T @ v)).reshape(B.den(z).shape)
  B.eq('orthogonal-projection', B.den(B.t3f.project(z, x)), want)


@contract('C13', grid(d=[2, 3], kind=KINDS, weights=['none', 'vector', 'column', 'matrix', 'plain']),
          grid(d=[4], kind=['tensor'], weights=['none', 'vector', 'matrix']),
          functions=['riemannian.project_sum'])
def project_sum(B, d, kind, weights):
  x = B.tt('x', d, kind)
  z = B.tt('z', d, kind, 'P' if weights != 'plain' else None)
  f = Frame(B, x)
  v = as_batch(B, z)
  P = v.shape[0]
  lab = ['a%d' % i for i in range(v.ndim - 1)]
  if weights in ('none', 'plain'):
    r = B.t3f.project_sum(z, x)
    want = f.project(B.contract([['p'] + lab], [v], lab))
    batch = False
  elif weights == 'vector':
    w = B.tensor('w', [P])
    r = B.t3f.project_sum(z, x, w)
    want = f.project(B.contract([['p'] + lab, ['p']], [v, w], lab))
    batch = False
  else:
    n = 1 if weights == 'column' else B.dim('N')
    w = B.tensor('w', [P, n])
    r = B.t3f.project_sum(z, x, w)
    full = f.project(B.contract([['p'] + lab, ['p', 'q']], [v, w], ['q'] + lab), True)
    batch = B.is_batch(r)
    if batch:
      want = full
    else:
      B.same('single-combination', n, 1)
      want = B.squeeze(full, 0)
  ok(B, 'projection', r, x, batch)
  B.eq('value', B.den(r), want)


@contract('C13', grid(d=[2, 3], batch=[None, 'P']), grid(d=[4], batch=[None, 'P']),
          functions=['riemannian.project_matmul'])
def project_matmul(B, d, batch):
  x = mat(B, 'x', d, 'i', 'k')
  z = mat(B, 'z', d, 'i', 'k', batch)
  A = mat(B, 'A', d, 'i', 'i')
  r = B.t3f.project_matmul(z, x, A)
  ok(B, 'projection', r, x, batch is not None)
  Az = matprod(B, B.den(A), B.den(z), d, False, batch is not None)
  B.eq('value', B.den(r), Frame(B, x).project(Az, batch is not None))


# -- shortcuts inside one tangent space ---------------------------------------
def two_tangents(B, d, kind, b1, b2):
  x = B.tt('x', d, kind)
  attainable(B, x)
  z, y = B.tt('z', d, kind, b1), B.tt('y', d, kind, b2)
  return x, B.t3f.project(z, x), B.t3f.project(y, x)


@contract('C14', [dict(d=d, kind=k, b1=p[0], b2=p[1]) for d in (2, 3) for k in KINDS
                  for p in ((None, None), ('P', 'Q'), ('P', None))],
          [dict(d=4, kind=k, b1='P', b2='Q') for k in KINDS],
          functions=['riemannian.pairwise_flat_inner_projected'])
def inner_projected(B, d, kind, b1, b2):
  x, p, q = two_tangents(B, d, kind, b1, b2)
  r = B.t3f.pairwise_flat_inner_projected(p, q)
  va, vb = as_batch(B, p), as_batch(B, q)
  lab = ['a%d' % i for i in range(va.ndim - 1)]
  B.eq('all-scalar-products', r, B.contract([['p'] + lab, ['q'] + lab], [va, vb], ['p', 'q']))


@contract('C14', [dict(d=d, kind=k, batch=b, coef=c, count=n) for d in (2, 3) for k in KINDS for b in (None, 'P')
                  for c in ('none', 'vector') + (('matrix',) if b else ()) for n in (1, 2, 3)
                  if not (n == 3 and (d == 3 or c != 'none'))],
          [dict(d=4, kind=k, batch=None, coef=c, count=2) for k in KINDS for c in ('none', 'vector')],
          functions=['riemannian.add_n_projected'])
def sum_projected(B, d, kind, batch, coef, count):
  x = B.tt('x', d, kind)
  attainable(B, x)
  ps = [B.t3f.project(B.tt('z%d' % i, d, kind, batch), x) for i in range(count)]
  vs = [B.den(p) for p in ps]
  nd = vs[0].ndim
  if coef == 'none':
    r = B.t3f.add_n_projected(ps)
    terms = vs
  elif coef == 'vector':
    c = [B.num('c0'), -B.num('c1'), 0.5][:count]
    r = B.t3f.add_n_projected(ps, c)
    terms = [v * k for v, k in zip(vs, c)]
  else:
    c = B.tensor('c', [count, B.dim('P')])
    r = B.t3f.add_n_projected(ps, c)
    lab = ['b'] + ['a%d' % i for i in range(nd - 1)]
    terms = [B.contract([lab, ['b']], [v, B.getitem(B.val(c), (i, slice(None)))], lab) for i, v in enumerate(vs)]
  want = terms[0]
  for t in terms[1:]:
    want = want + t
  ok(B, 'sum', r, x, batch is not None)
  for k in range(d + 1):
    B.le('rank-not-grown-%d' % k, r.get_tt_ranks()[k], ps[0].get_tt_ranks()[k])
  B.eq('value', B.den(r), want)


@contract('C14', grid(d=[2, 3], kind=KINDS, batch=[None, 'P']), deep=(), large=False,
          functions=['riemannian.add_n_projected', 'riemannian.pairwise_flat_inner_projected'])
def repeated(B, d, kind, batch):
  """The same tangent vector several times."""
  x = B.tt('x', d, kind)
  attainable(B, x)
  p, q = [B.t3f.project(B.tt(z, d, kind, batch), x) for z in ('y', 'z')]
  vp, vq = B.den(p), B.den(q)
  B.eq('sum', B.den(B.t3f.add_n_projected([p, p])), vp + vp)
  B.eq('three', B.den(B.t3f.add_n_projected([p, q, p])), vp + vq + vp)
  c = [B.num('c0'), -B.num('c1')]
  B.eq('weighted', B.den(B.t3f.add_n_projected([p, p], c)), vp * (c[0] + c[1]))
  v = as_batch(B, p)
  lab = ['a%d' % i for i in range(v.ndim - 1)]
  B.eq('inner', B.t3f.pairwise_flat_inner_projected(p, p), B.contract([['p'] + lab, ['q'] + lab], [v, v], ['p', 'q']))


@contract('C14', grid(d=[2, 3], kind=KINDS, batch=[None, 'P']), grid(d=[4], kind=KINDS, batch=[None, 'P']),
          functions=['riemannian.tangent_space_to_deltas', 'riemannian.deltas_to_tangent_space'])
def deltas_round_trip(B, d, kind, batch):
  """The deltas of a tangent vector describe it, and give it back."""
  x = B.tt('x', d, kind)
  attainable(B, x)
  p = B.t3f.project(B.tt('z', d, kind, batch), x)
  ds = B.t3f.tangent_space_to_deltas(p)
  f = Frame(B, x)
  B.same('count', len(ds), d)
  B.eq('describes', f.tangent([B.val(t) for t in ds], batch is not None), B.den(p))
  r = B.t3f.riemannian.deltas_to_tangent_space(ds, x)
  ok(B, 'back', r, x, batch is not None)
  B.eq('value', B.den(r), B.den(p))


@contract('C14', grid(d=[2, 3], kind=KINDS, batch=[None, 'P'], given=[False, True]),
          grid(d=[4], kind=KINDS, batch=[None], given=[False]),
          functions=['riemannian.deltas_to_tangent_space'])
def from_deltas(B, d, kind, batch, given):
  """Arbitrary deltas give the tangent vector they parametrise."""
  x = B.tt('x', d, kind)
  l = B.t3f.orthogonalize_tt_cores(x)
  r = B.t3f.orthogonalize_tt_cores(l, left_to_right=False)
  f = Frame(B, x)
  pre = [] if batch is None else [B.dim(batch)]
  ds = []
  for k in range(d):
    a, b = list(l.tt_cores[k].shape), list(r.tt_cores[k].shape)
    ds.append(B.tensor('d.%d' % k, pre + a[:-1] + b[-1:]))
  kw = dict(left=l, right=r) if given else {}
  t = B.t3f.riemannian.deltas_to_tangent_space(ds, x, **kw)
  ok(B, 'tangent', t, x, batch is not None)
  B.eq('value', B.den(t), f.tangent([B.val(v) for v in ds], batch is not None))


# -- automatic differentiation ------------------------------------------------
def functional(B, name, d, kind):
  """(function of a TT-object, Euclidean gradient and Hessian product)."""
  t3f = B.t3f
  c = B.tt('c', d, kind)
  if name == 'linear':
    return (lambda x: t3f.flat_inner(c, x), lambda v: B.den(c), lambda v, h: h * 0)
  if name == 'square':
    return (lambda x: 0.5 * t3f.frobenius_norm_squared(x, differentiable=True), lambda v: v, lambda v, h: h)
  if name == 'fit':
    def f(x):
      return t3f.flat_inner(x, x) - 2. * t3f.flat_inner(x, c)
    return f, lambda v: v * 2 - B.den(c) * 2, lambda v, h: h * 2
  if name == 'quartic':
    def f(x):
      return t3f.flat_inner(x, x) ** 2
    return f, lambda v: v * (B.inner(v, v) * 4), lambda v, h: v * (B.inner(v, h) * 8) + h * (B.inner(v, v) * 4)
  if name == 'form':
    A = mat(B, 'A', d, 'n', 'n')
    def f(x):
      return t3f.bilinear_form(A, x, x)
    i = [('i', k) for k in range(d)]
    j = [('j', k) for k in range(d)]
    o = [('o', k) for k in range(d)]
    def g(v):
      a = B.den(A)
      return B.contract([i + j, j + o], [a, v], i + o) + B.contract([j + i, j + o], [a, v], i + o)
    return f, g, lambda v, h: g(h)
  raise ValueError(name)


FUNCS = ('linear', 'square', 'fit', 'quartic')


def _point(B, d, kind, func):
  if func == 'form':
    return B.tt('x', d, 'matrix', m=[1] * d)
  return B.tt('x', d, kind)


def _checked(B, f, x):
  """The run-time check is on, unless rounding dominates the value of the
  function."""
  if B.symbolic:
    return True
  v, s = abs(float(f(x))), float(abs(B.den(x)).max())
  return s == 0 or v > 1e-2 * min(s, s ** 2, s ** 4)


@contract('C15', grid(d=[2, 3], kind=KINDS, how=['gradient', 'hessian']), functions=['autodiff._is_invariant_to_input_transforms'],
          replay_only=True)
def rejects_functions_of_the_cores(B, d, kind, how):
  """A function of the representation (not of the tensor) is refused."""
  import tensorflow as tf
  x = B.tt('x', d, kind)
  attainable(B, x)
  f = lambda t: tf.reduce_sum(t.tt_cores[0] ** 2) + 1.
  g = B.t3f.gradients if how == 'gradient' else lambda f, x: B.t3f.hessian_vector_product(f, x, x)
  B.require('<', 1., float(B.t3f.frobenius_norm(x)))
  B.raises('refused', (tf.errors.InvalidArgumentError,), lambda: g(f, x))
  # however small or large the values are
  for s in (1e-9, 1e9):
    B.raises('refused-%g' % s, (tf.errors.InvalidArgumentError,), lambda: g(lambda t: f(t) * s, x))


@contract('C15', [dict(d=d, kind=k, func=f) for d in (2, 3) for k in KINDS for f in FUNCS] +
          [dict(d=2, kind='matrix', func='form')],
          [dict(d=3, kind='matrix', func='form'), dict(d=4, kind='tensor', func='linear'), dict(d=4, kind='tensor', func='square')],
          functions=['autodiff.gradients', 'autodiff.value_and_grad', 'autodiff._enforce_gauge_conditions'])
def gradients(B, d, kind, func):
  x = _point(B, d, kind, func)
  attainable(B, x)
  f, g, _ = functional(B, func, d, kind)
  r = B.t3f.gradients(f, x, runtime_check=_checked(B, f, x))
  ok(B, 'gradient', r, x, False)
  B.eq('projected-gradient', B.den(r), Frame(B, x).project(g(B.den(x))))


@contract('C15', [dict(d=d, kind=k, func=f) for d in (2, 3) for k in KINDS for f in ('square', 'fit', 'quartic')
                  if not (d == 3 and k == 'matrix' and f == 'quartic')] +
          [dict(d=2, kind='matrix', func='form')],
          [dict(d=3, kind='matrix', func='form'), dict(d=4, kind='tensor', func='square')],
          functions=['autodiff.hessian_vector_product'])
def hessian(B, d, kind, func):
  x = _point(B, d, kind, func)
  attainable(B, x)
  f, _, h = functional(B, func, d, kind)
  v = B.tt('v', d, 'matrix', m=[1] * d) if func == 'form' else B.tt('v', d, kind)
  r = B.t3f.hessian_vector_product(f, x, v, runtime_check=_checked(B, f, x))
  ok(B, 'product', r, x, False)
  fr = Frame(B, x)
  B.eq('projected-hessian-product', B.den(r), fr.project(h(B.den(x), fr.project(B.den(v)))))


@contract('C15', grid(kind=KINDS, func=['square', 'quartic']), functions=['autodiff.hessian_vector_product'])
def hessian_of_projections(B, kind, func):
  """The vector is the projection of a vector at this or at another point."""
  x, y, v = B.tt('x', 2, kind), B.tt('y', 2, kind), B.tt('v', 2, kind)
  attainable(B, x)
  attainable(B, y)
  f, _, h = functional(B, func, 2, kind)
  fx, fy = Frame(B, x), Frame(B, y)
  for name, p, w in (('elsewhere', y, fy.project(B.den(v))), ('here', x, fx.project(B.den(v)))):
    r = B.t3f.hessian_vector_product(f, x, B.t3f.project(v, p), runtime_check=_checked(B, f, x))
    B.eq(name, B.den(r), fx.project(h(B.den(x), fx.project(w))))


@contract('C14', [dict(what=w) for w in ('inner', 'sum', 'variations')], replay_only=True,
          functions=['riemannian.pairwise_flat_inner_projected', 'riemannian.add_n_projected',
                     'riemannian.tangent_space_to_deltas'])
def over_ranked_point(B, what):
  """The shortcuts at a point of shape 2 x 2 x 2 with TT-ranks 1, 5, 5, 1 (not attainable)."""
  n, d = [2, 2, 2], 3
  x = B.tt('x', n=n, r=[1, 5, 5, 1])
  a, b = (B.t3f.project(B.tt(s, n=n, r=[1, 2, 2, 1], batch=1), x) for s in 'ab')
  if what == 'inner':
    r = B.t3f.pairwise_flat_inner_projected(a, b)
    B.eq('value', B.val(r), B.contract([['i'] + list(n_labels(d)), ['j'] + list(n_labels(d))],
                                       [B.den(a), B.den(b)], ['i', 'j']))
  elif what == 'sum':
    B.eq('value', B.den(B.t3f.add_n_projected([a, b])), B.den(a) + B.den(b))
  else:
    r = B.t3f.riemannian.deltas_to_tangent_space(B.t3f.tangent_space_to_deltas(a), x)
    B.eq('value', B.den(r), B.den(a))


def n_labels(d):
  return [('n', k) for k in range(d)]


@contract('C13', grid(d=[2], kind=KINDS, form=['array', 'list'], columns=[None, 2]), deep=(),
          functions=['riemannian.project_sum'])
def plain_weights(B, d, kind, form, columns):
  """Weights given as numbers rather than as TensorFlow tensors."""
  x, z = B.tt('x', d, kind), B.tt('z', d, kind, 3)
  w = B.tensor('w', [3] if columns is None else [3, columns])
  r = B.t3f.project_sum(z, x, B.plain(w, form))
  v = B.den(z)
  lab = ['a%d' % i for i in range(v.ndim - 1)]
  q = [] if columns is None else ['q']
  ok(B, 'projection', r, x, columns is not None)
  B.eq('value', B.den(r), Frame(B, x).project(B.contract([['p'] + lab, ['p'] + q], [v, w], q + lab), columns is not None))
