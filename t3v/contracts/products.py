"""Matrix products, transposition, scalar products, norms and bilinear forms."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS, PAIRS, inner_ranks, relative


def mat(B, name, d, rows, cols, batch=None, **kw):
  return B.tt(name, d, 'matrix', batch, n=rows, m=cols, **kw)


def matprod(B, x, y, d, b1, b2):
  """Dense product of two TT-matrix values [b?, n.., m..]."""
  rows = [('i', k) for k in range(d)]
  mid = [('j', k) for k in range(d)]
  cols = [('k', k) for k in range(d)]
  p1, p2 = (['b'] if b1 else []), (['b'] if b2 else [])
  return B.contract([p1 + rows + mid, p2 + mid + cols], [x, y], (['b'] if b1 or b2 else []) + rows + cols)


def as_batch(B, r):
  """Value of r with a leading batch axis (size one for a plain object)."""
  return B.den(r) if B.is_batch(r) else B.expand(B.den(r), 0)


def repeat_to(B, v, b, size):
  """Broadcast the batch axis of v from one to size."""
  return v if b != 1 else v * B.ones([size] + [1] * (v.ndim - 1))


@contract('C05', [dict(d=d, b1=p[0], b2=p[1]) for d in (1, 2, 3) for p in PAIRS] +
          [dict(d=2, b1=None, b2=None, dtype='float32')],
          [dict(d=d, b1=p[0], b2=p[1]) for d in (4,) for p in PAIRS],
          functions=['ops.matmul', 'ops.tt_tt_matmul', 'shapes.squeeze_batch_dim'])
def tt_tt(B, d, b1, b2):
  a, b = mat(B, 'a', d, 'i', 'j', b1), mat(B, 'b', d, 'j', 'k', b2)
  r = B.t3f.matmul(a, b)
  v1, v2 = as_batch(B, a), as_batch(B, b)
  size = B.dim('B') if 'B' in (b1, b2) else 1
  v1 = repeat_to(B, v1, 1 if b1 in (None, 1) else 'B', size)
  v2 = repeat_to(B, v2, 1 if b2 in (None, 1) else 'B', size)
  want = matprod(B, v1, v2, d, True, True)
  if not B.is_batch(r):
    # a batch of one object may come back as a plain object
    B.same('single-object', size, 1)
    want = B.squeeze(want, 0)
  B.same_tt('product', r, want)
  B.same('ranks', list(r.get_tt_ranks()), [1] + [x * y for x, y in inner_ranks(a, b)] + [1])


@contract('C05', grid(d=[1, 2, 3], batch=[None, 'B'], r=[None, 1]), large=False, deep=(), functions=['ops.matmul', 'ops.tt_tt_matmul', 'ops.transpose'])
def squares(B, d, batch, r):
  """The same object on both sides, and objects that share cores."""
  a = B.tt('a', d, 'matrix', batch, n='i', m='i', r=None if r is None else [1] * (d + 1))

  def check(name, x, y):
    p = B.t3f.matmul(x, y)
    want = matprod(B, as_batch(B, x), as_batch(B, y), d, True, True)
    if not B.is_batch(p):
      B.same(name + '/single-object', want.shape[0], 1)
      want = B.squeeze(want, 0)
    B.same_tt(name, p, want)
  check('a*a', a, a)
  check('a*a^T', a, B.t3f.transpose(a))
  for k in range(d):
    b = relative(B, a, k)
    check('left-%d' % k, b, a)
    check('right-%d' % k, a, b)


@contract('C05', [dict(d=d, side=s) for d in (1, 2, 3) for s in ('right', 'left')] +
          [dict(d=2, side=s, dtype='float32') for s in ('right', 'left')],
          [dict(d=d, side=s) for d in (4, 5) for s in ('right', 'left')],
          functions=['ops.matmul', 'ops.tt_dense_matmul', 'ops.dense_tt_matmul', 'ops.transpose'])
def tt_dense(B, d, side):
  a = mat(B, 'a', d, 'i', 'j')
  av = B.dense(a)
  p = B.dim('p')
  if side == 'right':
    x = B.tensor('x', [av.shape[1], p])
    r = B.t3f.matmul(a, x)
    want = B.einsum('ij,jp->ip', av, x)
  else:
    x = B.tensor('x', [p, av.shape[0]])
    r = B.t3f.matmul(x, a)
    want = B.einsum('pi,ij->pj', x, av)
  B.same('dtype', r.dtype, B.dtype)
  B.eq('product', r, want)


@contract('C05', grid(d=[1, 2, 3], batch=[None, 'B']), grid(d=[4, 5], batch=[None, 'B']), functions=['ops.transpose'])
def transpose(B, d, batch):
  a = mat(B, 'a', d, 'i', 'j', batch)
  r = B.t3f.transpose(a)
  o = 1 if batch else 0
  v = B.den(a)
  perm = list(range(o)) + [o + d + k for k in range(d)] + [o + k for k in range(d)]
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r))
  B.same_tt('transposed', r, B.transpose(v, perm))
  B.same_tt('involution', B.t3f.transpose(r), v)


@contract('C05', grid(d=[1, 2]), grid(d=[3]), functions=['ops.matmul', 'ops.transpose'])
def product_laws(B, d):
  a, b, c = mat(B, 'a', d, 'i', 'j'), mat(B, 'b', d, 'j', 'k'), mat(B, 'c', d, 'k', 'l')
  m, t = B.t3f.matmul, B.t3f.transpose
  B.eq('associative', B.den(m(m(a, b), c)), B.den(m(a, m(b, c))))
  B.eq('transpose-of-product', B.den(t(m(a, b))), B.den(m(t(b), t(a))))


# -- scalar products ----------------------------------------------------------
@contract('C06', [dict(d=d, kind=k, b1=p[0], b2=p[1]) for d in (1, 2, 3) for k in KINDS for p in PAIRS] +
          [dict(d=2, kind=k, b1=None, b2=None, dtype='float32') for k in KINDS],
          [dict(d=d, kind=k, b1=p[0], b2=p[1]) for d in (4, 5) for k in KINDS for p in PAIRS],
          functions=['ops.flat_inner', 'ops.tt_tt_flat_inner'])
def flat_inner(B, d, kind, b1, b2):
  a, b = B.tt('a', d, kind, b1), B.tt('b', d, kind, b2)
  r = B.t3f.flat_inner(a, b)
  B.same('dtype', r.dtype, B.dtype)
  va, vb = as_batch(B, a), as_batch(B, b)
  size = B.dim('B') if 'B' in (b1, b2) else 1
  va = repeat_to(B, va, 1 if b1 in (None, 1) else 'B', size)
  vb = repeat_to(B, vb, 1 if b2 in (None, 1) else 'B', size)
  want = B.inner(va, vb, batch=True)
  if len(list(r.shape)) == 0:
    B.same('single-value', size, 1)
    want = B.squeeze(want, 0)
  B.eq('inner-product', r, want)


@contract('C06', [dict(d=d, kind=k) for d in (1, 2, 3) for k in KINDS], [dict(d=4, kind=k) for k in KINDS],
          functions=['ops.flat_inner', 'ops.tt_sparse_flat_inner', 'ops.gather_nd', 'utils.unravel_index'])
def sparse_inner(B, d, kind):
  """Scalar product with a sparse tensor given by indices and values."""
  a = B.tt('a', d, kind)
  nnz = B.dim('z')
  full = B.dense(a)
  raw = [list(s) for s in a.get_raw_shape()]
  idx = B.index_tensor('ix', [nnz], raw if kind == 'matrix' else raw[0])
  vals = B.tensor('v', [nnz])
  sp = B.sparse(idx, vals, list(full.shape))
  r = B.t3f.flat_inner(a, sp)
  cols = B.columns(idx)
  want = B.einsum('z,z->', B.gather_multi(full, 0, cols), vals)
  B.eq('inner-product', r, want)


@contract('C06', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B'], differentiable=[False, True]),
          grid(d=[4], kind=KINDS, batch=[None, 'B'], differentiable=[False, True]),
          functions=['ops.frobenius_norm_squared', 'ops.frobenius_norm'])
def norms(B, d, kind, batch, differentiable):
  a = B.tt('a', d, kind, batch)
  v = as_batch(B, a)
  n2 = B.inner(v, v, batch=True)
  sq = B.t3f.frobenius_norm_squared(a, differentiable=differentiable)
  nr = B.t3f.frobenius_norm(a, epsilon=0., differentiable=differentiable)
  eps = 0.01
  ne = B.t3f.frobenius_norm(a, epsilon=eps, differentiable=differentiable)
  if len(list(sq.shape)) == 0:
    if batch is not None:
      B.same('single-value', B.dim('B'), 1)
    n2 = B.squeeze(n2, 0)
  B.eq('squared', sq, n2)
  B.eq('norm', nr, B.sqrt(n2))
  B.eq('norm-epsilon', ne, B.sqrt(n2 + eps))


@contract('C06', grid(d=[2, 3], kind=KINDS), grid(d=[4], kind=KINDS), functions=['ops.flat_inner'])
def inner_laws(B, d, kind):
  a, b, c = B.tt('a', d, kind), B.tt('b', d, kind), B.tt('c', d, kind)
  f = B.t3f.flat_inner
  for i, x in enumerate((a, b, c)):
    v = B.den(x)
    B.eq('square-%d' % i, f(x, x), B.inner(v, v))
  B.eq('symmetric', f(a, b), f(b, a))
  B.eq('additive', f(a + c, b), f(a, b) + f(c, b))
  B.eq('homogeneous', f(a * 3., b), f(a, b) * 3.)
  B.eq('norm', B.t3f.frobenius_norm_squared(a), f(a, a))


# -- bilinear forms -----------------------------------------------------------
def vec(B, name, d, rows, batch=None, row=False):
  one = [1] * d
  if row:
    return B.tt(name, d, 'matrix', batch, n=one, m=B.modes(rows, d))
  return B.tt(name, d, 'matrix', batch, n=B.modes(rows, d), m=one)


def flat(B, x, d):
  """[batch, n1..nd] value of a column TT-vector."""
  v = as_batch(B, x)
  for _ in range(d):
    v = B.squeeze(v, v.ndim - 1)
  return v


FORM = ((None, None), ('B', None), (None, 'B'), ('B', 'B'))


def _bilinear(B, A, b, c, d):
  i = [('i', k) for k in range(d)]
  j = [('j', k) for k in range(d)]
  return B.contract([['b'] + i, ['b'] + i + j, ['b'] + j], [b, A, c], ['b'])


def _result(B, name, r, want, batch):
  """A batch of results, or a single number when there is no batch."""
  if len(list(r.shape)) == 0:
    if batch:
      B.same(name + '/single-value', B.dim('B'), 1)
    want = B.squeeze(want, 0)
  B.eq(name, r, want)


def _lift(B, v, size, b):
  return repeat_to(B, v, 1 if b is None else 'B', size)


@contract('C07', [dict(d=d, bb=p[0], bc=p[1], old=o) for d in (1, 2, 3) for p in FORM for o in (False, True)] +
          [dict(d=2, bb=None, bc=None, old=False, dtype='float32')],
          [dict(d=d, bb=p[0], bc=p[1], old=False) for d in (4, 5) for p in FORM],
          functions=['ops.bilinear_form', 'ops.quadratic_form'])
def bilinear(B, d, bb, bc, old):
  A = mat(B, 'A', d, 'i', 'j')
  b, c = vec(B, 'b', d, 'i', bb), vec(B, 'c', d, 'j', bc)
  r = (B.t3f.quadratic_form if old else B.t3f.bilinear_form)(A, b, c)
  batch = bb or bc
  size = B.dim('B') if batch else 1
  want = _bilinear(B, _lift(B, as_batch(B, A), size, None), _lift(B, flat(B, b, d), size, bb),
                   _lift(B, flat(B, c, d), size, bc), d)
  B.same('dtype', r.dtype, B.dtype)
  _result(B, 'b^T A c', r, want, batch)


@contract('C07', [dict(d=d, batch=b) for d in (1, 2) for b in (None, 'B')],
          [dict(d=d, batch=b) for d in (3, 4) for b in (None, 'B')], functions=['ops.bilinear_form', 'ops.matmul'])
def bilinear_agrees_with_matmul(B, d, batch):
  """b^T (A c) computed the long way."""
  A = mat(B, 'A', d, 'i', 'j')
  b, c = vec(B, 'b', d, 'i', batch), vec(B, 'c', d, 'j', batch)
  r = B.t3f.bilinear_form(A, b, c)
  q = B.t3f.flat_inner(b, B.t3f.matmul(A, c))
  v = B.val(r)
  if len(list(r.shape)) > len(list(q.shape)):
    v = B.squeeze(v, 0)
  B.eq('same-number', q, v)


@contract('C07', [dict(d=d, bx=p[0], by=p[1]) for d in (1, 2, 3) for p in FORM],
          [dict(d=4, bx=p[0], by=p[1]) for p in FORM],
          functions=['ops.bilinear_form_two_mat'])
def two_matrices(B, d, bx, by):
  A, C = mat(B, 'A', d, 'i', 'j'), mat(B, 'C', d, 'j', 'k')
  x, y = vec(B, 'x', d, 'i', bx), vec(B, 'y', d, 'k', by)
  r = B.t3f.ops.bilinear_form_two_mat(x, A, C, y)
  size = B.dim('B') if bx or by else 1
  AC = matprod(B, as_batch(B, A), as_batch(B, C), d, True, True)
  want = _bilinear(B, _lift(B, AC, size, None), _lift(B, flat(B, x, d), size, bx), _lift(B, flat(B, y, d), size, by), d)
  _result(B, 'x^T A C y', r, want, bx or by)


@contract('C06', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B'], r=[None, 1]), large=False, functions=['ops.flat_inner', 'ops.tt_tt_flat_inner'])
def related_inner(B, d, kind, batch, r):
  """The same object on both sides, and objects that share cores."""
  a = B.tt('a', d, kind, batch, r=None if r is None else [1] * (d + 1))

  def check(name, x, y):
    u, v = as_batch(B, x), as_batch(B, y)
    lab = ['b'] + ['a%d' % i for i in range(u.ndim - 1)]
    _result(B, name, B.t3f.flat_inner(x, y), B.contract([lab, lab], [u, v], ['b']), batch)
  check('<a,a>', a, a)
  for k in range(d):
    b = relative(B, a, k)
    check('left-%d' % k, b, a)
    check('right-%d' % k, a, b)


@contract('C07', grid(d=[1, 2, 3], batch=[None, 'B']), large=False, functions=['ops.bilinear_form', 'ops.bilinear_form_two_mat'])
def related_forms(B, d, batch):
  """Equal vectors, equal matrices, objects that share cores."""
  A = mat(B, 'A', d, 'i', 'i')
  b = vec(B, 'b', d, 'i', batch)
  size = B.dim('B') if batch else 1
  up = lambda M: _lift(B, M, size, None)
  AA = matprod(B, as_batch(B, A), as_batch(B, A), d, True, True)

  def check(name, x, y):
    u, v = flat(B, x, d), flat(B, y, d)
    _result(B, name, B.t3f.bilinear_form(A, x, y), _bilinear(B, up(as_batch(B, A)), u, v, d), batch)
    _result(B, name + '-two', B.t3f.ops.bilinear_form_two_mat(x, A, A, y), _bilinear(B, up(AA), u, v, d), batch)
  check('same', b, b)
  for k in range(d):
    c = relative(B, b, k)
    check('left-%d' % k, c, b)
    check('right-%d' % k, b, c)
