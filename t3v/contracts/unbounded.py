"""The same specifications for any number of cores, by induction over the cores.

Configurations d='any': the number of cores is a symbol (at least three; the
other contracts have one and two).  Loops are cut at the invariants offered
with B.invariants, values of TT-results are compared core by core with B.chain.
"""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS, PAIRS

ANY = ['any']
FORM = ((None, None), ('B', None), (None, 'B'), ('B', 'B'))


def unbounded(prop, cfgs, functions, few=False):
  """few: the samples on the real library are expensive."""
  cfgs = [dict(c, d='any') for c in cfgs]
  return contract(prop, *([[], cfgs] if few else [cfgs]), functions=functions, deep=())


def pairs(kinds=KINDS, ps=PAIRS):
  return [dict(kind=k, b1=p[0], b2=p[1]) for k in kinds for p in ps]


def size_of(B, *bs):
  return B.dim('B') if 'B' in bs else 1


def lifted(B, x, size):
  """Prefix products with a batch axis of the given size."""
  return lambda k: B.prefix(x, k, batch=size)


def result(B, name, r, want, inv):
  """A TT-result; want and inv have a batch axis."""
  if not B.is_batch(r):
    B.same(name + '/single-object', want.shape[0], 1)
    w, g = want, inv
    want, inv = B.squeeze(w, 0), lambda k: B.squeeze(g(k), 0)
  B.chain(name, r, want, inv)


def number(B, name, r, want):
  """One number per element of the batch, or a single number."""
  if len(list(r.shape)) == 0:
    B.same(name + '/single-value', want.shape[0], 1)
    want = B.squeeze(want, 0)
  B.same(name + '/dtype', r.dtype, B.dtype)
  B.eq(name, r, want)


def folds(B, size, *gs):
  """Invariants with a batch axis, and without when its size is one."""
  out = list(gs)
  if B.sure('==', size, 1):
    out += [(lambda g: lambda k: B.squeeze(g(k), 0))(g) for g in gs]
  return B.invariants(*out)


# -- sums and products --------------------------------------------------------
@unbounded('C03', pairs(), ['ops.add', 'ops._add_tensor_cores', 'ops._add_matrix_cores',
                            'ops._add_batch_tensor_cores', 'ops._add_batch_matrix_cores'])
def add(B, d, kind, b1, b2):
  B.any()
  a, b = B.tt_any('a', kind, b1), B.tt_any('b', kind, b2)
  r = B.t3f.add(a, b)
  s = size_of(B, b1, b2)
  ga, gb = lifted(B, a, s), lifted(B, b, s)
  result(B, 'sum', r, B.flat(a, s) + B.flat(b, s), lambda k: B.concat([ga(k), gb(k)], ga(k).ndim - 1))


def kron(B, p, q):
  """Rank axes combined, other axes equal."""
  lab = list(range(p.ndim - 1))
  v = B.contract([lab + ['r'], lab + ['s']], [p, q], lab + ['r', 's'])
  s = list(v.shape)
  return B.reshape(v, s[:-2] + [s[-2] * s[-1]])


@unbounded('C04', pairs(), ['ops.multiply'])
def multiply(B, d, kind, b1, b2):
  B.any()
  a, b = B.tt_any('a', kind, b1), B.tt_any('b', kind, b2)
  r = B.t3f.multiply(a, b)
  s = size_of(B, b1, b2)
  ga, gb = lifted(B, a, s), lifted(B, b, s)
  result(B, 'product', r, B.flat(a, s) * B.flat(b, s), lambda k: kron(B, ga(k), gb(k)))


# -- scalar products ----------------------------------------------------------
@unbounded('C06', pairs(), ['ops.flat_inner', 'ops.tt_tt_flat_inner'])
def flat_inner(B, d, kind, b1, b2):
  B.any()
  a, b = B.tt_any('a', kind, b1), B.tt_any('b', kind, b2)
  s = size_of(B, b1, b2)
  ga, gb = lifted(B, a, s), lifted(B, b, s)
  mid = ['n'] + (['m'] if kind == 'matrix' else [])
  g = lambda k: B.contract([['b'] + mid + ['r'], ['b'] + mid + ['s']], [ga(k), gb(k)], ['b', 'r', 's'])
  with folds(B, s, g):
    r = B.t3f.flat_inner(a, b)
  number(B, 'inner-product', r, B.contract([['b'] + mid] * 2, [B.flat(a, s), B.flat(b, s)], ['b']))


@unbounded('C06', grid(kind=KINDS, batch=[None, 'B']), ['ops.frobenius_norm_squared', 'ops.frobenius_norm'])
def norms(B, d, kind, batch):
  B.any()
  a = B.tt_any('a', kind, batch)
  s = size_of(B, batch)
  ga = lifted(B, a, s)
  mid = ['n'] + (['m'] if kind == 'matrix' else [])
  g = lambda k: B.contract([['b'] + mid + ['r'], ['b'] + mid + ['s']], [ga(k), ga(k)], ['b', 'r', 's'])
  with folds(B, s, g):
    r = B.t3f.frobenius_norm_squared(a, differentiable=True)
    n = B.t3f.frobenius_norm(a, epsilon=0.01, differentiable=True)
  v = B.flat(a, s)
  want = B.contract([['b'] + mid] * 2, [v, v], ['b'])
  number(B, 'squared', r, want)
  number(B, 'norm', n, B.sqrt(want + 0.01))


# -- sums, continued ----------------------------------------------------------
@unbounded('C03', pairs(), ['tensor_train_base.__add__', 'tensor_train_base.__sub__', 'tensor_train_base.__neg__',
                            'ops.add', 'ops.multiply'])
def operators(B, d, kind, b1, b2):
  B.any()
  a, b = B.tt_any('a', kind, b1), B.tt_any('b', kind, b2)
  s = size_of(B, b1, b2)
  ga, gb = lifted(B, a, s), lifted(B, b, s)
  result(B, 'a+b', a + b, B.flat(a, s) + B.flat(b, s), lambda k: B.concat([ga(k), gb(k)], ga(k).ndim - 1))
  result(B, 'a-b', a - b, B.flat(a, s) - B.flat(b, s), lambda k: B.concat([ga(k), -gb(k)], ga(k).ndim - 1))
  if b1 != 1:
    B.chain('-a', -a, -B.flat(a), lambda k: -B.prefix(a, k))


# -- matrices -----------------------------------------------------------------
def mat(B, name, rows, cols, batch=None):
  return B.tt_any(name, 'matrix', batch, n=rows, m=cols)


def matkron(B, p, q):
  """[b, i, j, r], [b, j, k, s] -> [b, i, k, rs]."""
  v = B.einsum('bijr,bjks->bikrs', p, q)
  s = list(v.shape)
  return B.reshape(v, s[:-2] + [s[-2] * s[-1]])


@unbounded('C05', [dict(b1=p[0], b2=p[1]) for p in PAIRS], ['ops.matmul', 'ops.tt_tt_matmul', 'shapes.squeeze_batch_dim'])
def tt_tt(B, d, b1, b2):
  B.any()
  a, b = mat(B, 'a', 'i', 'j', b1), mat(B, 'b', 'j', 'k', b2)
  r = B.t3f.matmul(a, b)
  s = size_of(B, b1, b2)
  ga, gb = lifted(B, a, s), lifted(B, b, s)
  result(B, 'product', r, B.einsum('bij,bjk->bik', B.flat(a, s), B.flat(b, s)), lambda k: matkron(B, ga(k), gb(k)))


@unbounded('C05', grid(batch=[None, 'B']), ['ops.transpose'])
def transpose(B, d, batch):
  B.any()
  a = mat(B, 'a', 'i', 'j', batch)
  r = B.t3f.transpose(a)
  perm = lambda v, n: B.transpose(v, [0, 2, 1, 3][:n] if batch else [1, 0, 2][:n - 1])
  B.true('kind', B.is_batch(r) == (batch is not None))
  B.chain('transposed', r, perm(B.flat(a), 3), lambda k: perm(B.prefix(a, k), 4))
  B.chain('involution', B.t3f.transpose(r), B.flat(a), lambda k: B.prefix(a, k))


# -- bilinear forms -----------------------------------------------------------
def vec(B, name, rows, batch=None):
  return B.tt_any(name, 'matrix', batch, n=rows, m=1)


def column(B, v):
  return B.squeeze(v, 2)


@unbounded('C07', [dict(bb=p[0], bc=p[1], old=o) for p in FORM for o in (False, True)],
           ['ops.bilinear_form', 'ops.quadratic_form'])
def bilinear(B, d, bb, bc, old):
  B.any()
  A = mat(B, 'A', 'i', 'j')
  b, c = vec(B, 'b', 'i', bb), vec(B, 'c', 'j', bc)
  s = size_of(B, bb, bc)
  gA, gb, gc = lifted(B, A, s), lifted(B, b, s), lifted(B, c, s)
  g = lambda k: B.einsum('pir,pijs,pjt->prst', column(B, gb(k)), gA(k), column(B, gc(k)))
  with folds(B, s, g):
    r = (B.t3f.quadratic_form if old else B.t3f.bilinear_form)(A, b, c)
  number(B, 'b^T A c', r, B.einsum('pi,pij,pj->p', column(B, B.flat(b, s)), B.flat(A, s), column(B, B.flat(c, s))))


@unbounded('C07', [dict(bx=p[0], by=p[1]) for p in FORM], ['ops.bilinear_form_two_mat'])
def two_matrices(B, d, bx, by):
  B.any()
  A, C = mat(B, 'A', 'i', 'j'), mat(B, 'C', 'j', 'k')
  x, y = vec(B, 'x', 'i', bx), vec(B, 'y', 'k', by)
  s = size_of(B, bx, by)
  gA, gC, gx, gy = lifted(B, A, s), lifted(B, C, s), lifted(B, x, s), lifted(B, y, s)
  g = lambda k: B.einsum('pir,pijs,pjkt,pku->prstu', column(B, gx(k)), gA(k), gC(k), column(B, gy(k)))
  with folds(B, s, g):
    r = B.t3f.ops.bilinear_form_two_mat(x, A, C, y)
  number(B, 'x^T A C y', r, B.einsum('pi,pij,pjk,pk->p', column(B, B.flat(x, s)), B.flat(A, s), B.flat(C, s),
                                     column(B, B.flat(y, s))))


# -- batches ------------------------------------------------------------------
@unbounded('C08', grid(kind=KINDS), ['batch_ops.pairwise_flat_inner'])
def pairwise(B, d, kind):
  B.any()
  a, b = B.tt_any('a', kind, 'P'), B.tt_any('b', kind, 'Q')
  mid = ['n'] + (['m'] if kind == 'matrix' else [])
  g = lambda k: B.contract([['p'] + mid + ['r'], ['q'] + mid + ['s']], [B.prefix(a, k), B.prefix(b, k)],
                           ['p', 'q', 'r', 's'])
  with B.invariants(g):
    r = B.t3f.pairwise_flat_inner(a, b)
  B.eq('all-scalar-products', r, B.contract([['p'] + mid, ['q'] + mid], [B.flat(a), B.flat(b)], ['p', 'q']))


@unbounded('C08', grid(kind=KINDS), ['batch_ops.gram_matrix'])
def gram_matrix(B, d, kind):
  B.any()
  a = B.tt_any('a', kind, 'P')
  mid = ['n'] + (['m'] if kind == 'matrix' else [])
  g = lambda k: B.contract([['p'] + mid + ['r'], ['q'] + mid + ['s']], [B.prefix(a, k)] * 2, ['p', 'q', 'r', 's'])
  with B.invariants(g):
    r = B.t3f.gram_matrix(a)
  B.eq('gram', r, B.contract([['p'] + mid, ['q'] + mid], [B.flat(a)] * 2, ['p', 'q']))


@unbounded('C08', [dict(gram=False, n=n, m=m) for n in ('i', 1) for m in ('j', 1)] +
           [dict(gram=True, n=n, m=n) for n in ('i', 1)],
           ['batch_ops.pairwise_flat_inner', 'batch_ops.gram_matrix'])
def pairwise_matrix(B, d, gram, n, m):
  B.any()
  for s in {n, m} - {1}:
    # vectors of size one are the configurations with 1
    B.require('<', 1, B.total_any(s))
  A = mat(B, 'A', n, m)
  a = vec(B, 'a', n, 'P')
  b = a if gram else vec(B, 'b', m, 'Q')
  g = lambda k: B.einsum('pir,ijs,qjt->pqrst', column(B, B.prefix(a, k)), B.prefix(A, k), column(B, B.prefix(b, k)))
  with B.invariants(g):
    r = B.t3f.gram_matrix(a, A) if gram else B.t3f.pairwise_flat_inner(a, b, A)
  B.eq('x^T A y', r, B.einsum('pi,ij,qj->pq', column(B, B.flat(a)), B.flat(A), column(B, B.flat(b))))


@unbounded('C08', [dict(kind=k, sizes=s) for k in KINDS for s in (('P',), ('P', 'Q'), ('P', 1), (1, 'P'), ('P', 'Q', 'S'))],
           ['batch_ops.concat_along_batch_dim'])
def concat(B, d, kind, sizes):
  B.any()
  xs = [B.tt_any('x%d' % i, kind, s, r='r') for i, s in enumerate(sizes)]
  r = B.t3f.concat_along_batch_dim(xs)
  B.true('is-batch', B.is_batch(r))
  B.chain('joined', r, B.concat([B.flat(x) for x in xs], 0), lambda k: B.concat([B.prefix(x, k) for x in xs], 0))


@unbounded('C08', grid(kind=KINDS), ['batch_ops.multiply_along_batch_dim'])
def weights(B, d, kind):
  B.any()
  a = B.tt_any('a', kind, 'P')
  w = B.tensor('w', [B.dim('P')])
  r = B.t3f.multiply_along_batch_dim(a, w)
  lab = ['n', 'm', 'r'][:2 if kind == 'tensor' else 3]
  inv = lambda k: B.contract([['p'] + lab, ['p']], [B.prefix(a, k), w], ['p'] + lab)
  B.true('is-batch', B.is_batch(r))
  B.chain('weighted', r, B.contract([['p'] + lab[:-1], ['p']], [B.flat(a), w], ['p'] + lab[:-1]), inv)


# -- representation -----------------------------------------------------------
@unbounded('C20', grid(kind=KINDS, batch=[None, 'B'], to=['float32', 'float64']), ['ops.cast'])
def cast(B, d, kind, batch, to):
  B.any()
  a = B.tt_any('a', kind, batch)
  r = B.t3f.cast(a, getattr(B.tf, to))
  if to == 'float32':
    B.single()
  B.true('batch', B.is_batch(r) == (batch is not None))
  B.chain('cast', r, B.flat(a), lambda k: B.prefix(a, k), dtype=getattr(B.tf, to))


@unbounded('C20', grid(kind=KINDS), ['shapes.expand_batch_dim', 'shapes.squeeze_batch_dim'])
def batch_axis(B, d, kind):
  B.any()
  a = B.tt_any('a', kind)
  e = B.t3f.expand_batch_dim(a)
  B.true('expanded', B.is_batch(e))
  B.chain('expand', e, B.expand(B.flat(a), 0), lambda k: B.expand(B.prefix(a, k), 0))
  q = B.t3f.squeeze_batch_dim(e)
  B.true('squeezed', not B.is_batch(q))
  B.chain('squeeze', q, B.flat(a), lambda k: B.prefix(a, k))


# -- dense value --------------------------------------------------------------
@unbounded('C01', grid(kind=KINDS[:1], batch=[None, 'B']), ['ops.full', 'ops._full_tt', 'ops._full_tt_batch'])
def full(B, d, kind, batch):
  B.any()
  a = B.tt_any('a', kind, batch)
  with B.invariants(lambda k: B.prefix(a, k)):
    r = B.t3f.full(a)
  B.same('dtype', r.dtype, B.dtype)
  B.spread('value', r, ([B.dim('B')] if batch else []) + B.modes_any('n'), B.flat(a))


# -- elements -------------------------------------------------------------------
@unbounded('C09', grid(batch=[None, 'B'], lead=[1, 2]), ['ops.gather_nd'])
def elements(B, d, batch, lead):
  B.any()
  a = B.tt_any('a', 'tensor', batch)
  idx = B.index_any('ix', [B.dim('z%d' % i) for i in range(lead)], 'n', B.dim('B') if batch else None)
  want, inv = B.elements_any(a, idx)
  with B.invariants(inv):
    r = B.t3f.gather_nd(a, idx)
  B.same('dtype', r.dtype, B.dtype)
  B.eq('elements', r, want)


@unbounded('C06', [dict(kind='tensor')], ['ops.flat_inner', 'ops.tt_sparse_flat_inner', 'ops.gather_nd'])
def sparse_inner(B, d, kind):
  """Scalar product with a sparse tensor given by indices and values."""
  B.any()
  a = B.tt_any('a', kind)
  z = B.dim('z')
  idx = B.index_any('ix', [z], 'n')
  vals = B.tensor('v', [z])
  elements, inv = B.elements_any(a, idx)
  sp = B.sparse(idx, vals, B.modes_any('n'))
  with B.invariants(inv):
    r = B.t3f.flat_inner(a, sp)
  B.eq('inner-product', r, B.einsum('z,z->', elements, vals))


# -- products with dense matrices -----------------------------------------------
@unbounded('C05', grid(left=[False, True]), ['ops.matmul', 'ops.tt_dense_matmul', 'ops.dense_tt_matmul'])
def dense_product(B, d, left):
  B.any()
  a = B.tt_any('a', 'matrix')
  P = B.dim('P')
  b = B.dense_matrix_any('b', 'n' if left else 'm', P)
  want, inv = B.times_dense(a, 'b', P, left)
  with B.invariants(inv):
    r = B.t3f.matmul(B.tf.transpose(b), a) if left else B.t3f.matmul(a, b)
  B.same('dtype', r.dtype, B.dtype)
  B.eq('product', B.transpose(B.val(r), [1, 0]) if left else r, want)


# -- orthogonalization --------------------------------------------------------
@unbounded('C10', grid(kind=KINDS, batch=[None, 'B'], left=[True]) + grid(kind=KINDS, batch=[None], left=[False]),
           ['decompositions.orthogonalize_tt_cores', 'decompositions._orthogonalize_tt_cores_left_to_right',
            'decompositions._orthogonalize_batch_tt_cores_left_to_right',
            'decompositions._orthogonalize_tt_cores_right_to_left'])
def orthogonalize(B, d, kind, batch, left):
  B.any()
  a = B.tt_any('a', kind, batch)
  sw = B.sweep('q', a, left)
  with B.sweeps(sw):
    r = B.t3f.orthogonalize_tt_cores(a, left_to_right=left)
  B.true('kind', B.is_batch(r) == (batch is not None))
  if left:
    B.chain('same-value', r, B.flat(a), sw.W)
  else:
    B.chain_left('same-value', r, B.flat_left(a), sw.W)
  B.orthonormal_any('orthonormal', r, left)
  B.rank_limit_any('rank-not-increased', r, lambda k: B.rank_of(a, k))


# -- rounding -----------------------------------------------------------------
def rounded(B, a, batch, exact, cap):
  """(result, what it is compared with, ghost values) of a call of round."""
  with B.orthogonalized() as log:
    holder = B.late(lambda: B.sweep('q', log[-1][1], left=False, exact=exact))
    with B.sweeps(holder):
      r = B.t3f.round(a) if cap is None else B.t3f.round(a, cap)
  B.true('kind', B.is_batch(r) == (batch is not None))
  return r, B.called(log, a), holder


@unbounded('C11', grid(kind=KINDS, batch=[None, 'B'], cap=['none', 'inf', 'big', 'list']),
           ['decompositions.round', 'decompositions._round_tt', 'decompositions._round_batch_tt',
            'decompositions._clean_max_tt_rank'])
def unrestricted(B, d, kind, batch, cap):
  """Rounding without an effective rank limit keeps the value."""
  B.any()
  a = B.tt_any('a', kind, batch)
  limit = None
  if cap == 'inf':
    limit = B.np.inf
  elif cap == 'big':
    limit = B.dim('cap')
    B.ranks_within(a, lambda k: limit)
  elif cap == 'list':
    limit = B.caps_any('cap')
    B.ranks_within(a, lambda k: limit[k])
  r, o, q = rounded(B, a, batch, True, limit)
  B.chain_left('same-value', r, B.flat_left(o), q.W)
  B.rank_limit_any('rank-not-increased', r, lambda k: B.rank_of(a, k))


@unbounded('C11', grid(kind=KINDS, batch=[None, 'B'], cap=[1, 2, 'cap', 'list']),
           ['decompositions.round', 'decompositions._round_tt', 'decompositions._round_batch_tt'])
def restricted(B, d, kind, batch, cap):
  B.any()
  a = B.tt_any('a', kind, batch)
  limit = B.dim(cap) if cap == 'cap' else B.caps_any('cap') if cap == 'list' else cap
  r, o, q = rounded(B, a, batch, False, limit)
  w = B.projected(q, r)
  B.chain_left('projection', r, w, q.W)
  v = B.flat_left(o)
  B.eq('error-orthogonal-to-result', B.inner(v, w, batch is not None), B.inner(w, w, batch is not None))
  B.rank_limit_any('rank-limit', r, lambda k: limit[k] if cap == 'list' else limit)
  B.rank_limit_any('rank-not-increased', r, lambda k: B.rank_of(a, k))


@unbounded('C06', grid(kind=KINDS, batch=[None, 'B']), ['ops.frobenius_norm_squared', 'ops.frobenius_norm'])
def norms_by_orthogonalization(B, d, kind, batch):
  B.any()
  a = B.tt_any('a', kind, batch)
  with B.orthogonalized() as log:
    r = B.t3f.frobenius_norm_squared(a)
  o = B.called(log, a)
  with B.orthogonalized() as log:
    n = B.t3f.frobenius_norm(a, epsilon=0.01)
  p = B.called(log, a)
  B.orthonormal_prefix(o)
  v, w = B.flat(o), B.flat(p)
  bat = batch is not None
  B.same('dtype', r.dtype, B.dtype)
  B.eq('squared', r, B.inner(v, v, bat))
  B.eq('norm', n, B.sqrt(B.inner(w, w, bat) + 0.01))


# -- conversion of dense tensors ------------------------------------------------
@unbounded('C12', grid(cap=['inf', 'none']), ['decompositions.to_tt_tensor', 'decompositions._clean_max_tt_rank'])
def tensor_exact(B, d, cap):
  B.any()
  x = B.dense_any('x')
  q = B.dense_sweep('q', x, 'x')
  with B.sweeps(q), B.invariants(q.rho):
    r = B.t3f.to_tt_tensor(x, max_tt_rank=B.np.inf if cap == 'inf' else None)
  B.true('kind', not B.is_batch(r))
  B.chain('same-value', r, B.dense_flat(x, 'x'), q.W)


@unbounded('C12', grid(cap=[1, 2, 10, 'cap', 'list']), ['decompositions.to_tt_tensor'])
def truncated(B, d, cap):
  B.any()
  x = B.dense_any('x')
  limit = B.dim(cap) if cap == 'cap' else B.caps_any('cap') if cap == 'list' else cap
  q = B.dense_sweep('q', x, 'x', exact=False)
  with B.sweeps(q), B.invariants(q.rho):
    r = B.t3f.to_tt_tensor(x, max_tt_rank=limit) if cap != 10 else B.t3f.to_tt_tensor(x)
  B.true('kind', not B.is_batch(r))
  w = B.projected_left(q, r)
  B.chain('projection', r, w, q.W)
  v = B.dense_flat(x, 'x')
  B.eq('error-orthogonal-to-result', B.inner(v, w), B.inner(w, w))
  B.rank_limit_any('rank-limit', r, lambda k: limit[k] if cap == 'list' else limit)


# -- constants --------------------------------------------------------------------
def shape_any(B, kind, form='both'):
  """(argument, stem of the row sizes, stem of the column sizes)."""
  if kind == 'tensor':
    return B.modes_any('n'), 'n', None
  if form == 'row':
    return [None, B.modes_any('m')], 1, 'm'
  if form == 'col':
    return [B.modes_any('n'), None], 'n', 1
  return [B.modes_any('n'), B.modes_any('m')], 'n', 'm'


FORMS = [dict(kind='tensor', form='both')] + [dict(kind='matrix', form=f) for f in ('both', 'row', 'col')]


def filled(B, x, n, m):
  """Products of the first k sizes of cores that are full of x."""
  both = [n] + ([m] if m is not None else [])
  return (lambda k: B.full([B.first_any(s, k) for s in both] + [1], x), B.full([B.total_any(s) for s in both], x))


@unbounded('C17', [dict(c, value=v, dt=dt) for c in FORMS for v in ('ones', 'zeros') for dt in ('float64', None)],
           ['initializers.tensor_ones', 'initializers.tensor_zeros', 'initializers.matrix_ones',
            'initializers.matrix_zeros', 'initializers._validate_input_parameters'])
def constant(B, d, kind, form, value, dt):
  B.any()
  arg, n, m = shape_any(B, kind, form)
  f = getattr(B.t3f, '%s_%s' % (kind, value))
  r = f(arg, dtype=B.tf.as_dtype(dt)) if dt else f(arg)
  B.true('kind', not B.is_batch(r) and B.is_matrix(r) == (m is not None))
  inv, want = filled(B, 1 if value == 'ones' else 0, n, m)
  B.chain('value', r, want, inv, dtype=B.tf.as_dtype(dt or 'float32'))


@unbounded('C17', grid(dt=['float64', None]), ['initializers.eye'])
def eye(B, d, dt):
  B.any()
  r = B.t3f.eye(B.modes_any('n'), dtype=B.tf.as_dtype(dt)) if dt else B.t3f.eye(B.modes_any('n'))
  B.true('kind', not B.is_batch(r) and B.is_matrix(r))
  B.chain('identity', r, B.eye(B.total_any('n')), lambda k: B.expand(B.eye(B.first_any('n', k)), 2),
          dtype=B.tf.as_dtype(dt or 'float32'))


@unbounded('C17', grid(kind=KINDS, value=['ones', 'zeros'], batch=[None, 'P']),
           ['initializers.ones_like', 'initializers.zeros_like'])
def like(B, d, kind, value, batch):
  B.any()
  a = B.tt_any('a', kind, batch)
  r = getattr(B.t3f, value + '_like')(a)
  B.true('kind', B.is_matrix(r) == (kind == 'matrix') and not B.is_batch(r))
  inv, want = filled(B, 1 if value == 'ones' else 0, 'n', 'm' if kind == 'matrix' else None)
  B.chain('value', r, want, inv)


@unbounded('C04', [dict(kind=k, batch=b, side=s, c=c) for k in KINDS for b in (None, 'B')
                   for c in ('tensor', 'number', 3, -0.5, 0, 1) for s in ('right', 'left', 'call')[:1 if c != 'tensor' else 3]],
           ['ops.multiply', 'tensor_train_base.__mul__', 'tensor_train_base.__rmul__'])
def scale(B, d, kind, batch, side, c):
  """The factor is spread over the cores as |c|^(1/d)."""
  B.any()
  a = B.tt_any('a', kind, batch)
  c = B.tensor('c', []) if c == 'tensor' else B.num('c') if c == 'number' else c
  r = {'right': lambda: a * c, 'left': lambda: c * a, 'call': lambda: B.t3f.multiply(a, c)}[side]()
  v = B.val(c) if not isinstance(c, (int, float)) else c
  B.true('kind', B.is_batch(r) == (batch is not None))
  B.chain('scaled', r, B.flat(a) * v, lambda k: B.prefix(a, k) * B.root(c, k) * B.sign_of(c))


# -- random objects -----------------------------------------------------------------
def rank_any(B, how):
  """(argument, ranks)."""
  if how == 'number':
    r = B.dim('r')
    return r, lambda k: r
  rs = B.ranks_any('r')
  return rs, lambda k: rs[k]


RANDOM = [dict(c, rank=r, batch=b) for c in FORMS for r in ('number', 'list') for b in (None, 'P')]


def random_object(B, r, n, m, rk, batch):
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r) == (m is not None))
  if batch:
    B.same('batch-size', r.batch_size, B.dim(batch))
  if not B.wf_any('object', r):
    B.stop('malformed')
  B.modes_are('shape', r, n, m)
  B.ranks_are('ranks', r, rk)


@unbounded('C18', RANDOM,
           ['initializers.tensor_with_random_cores', 'initializers.tensor_batch_with_random_cores',
            'initializers.matrix_with_random_cores', 'initializers.matrix_batch_with_random_cores',
            'initializers._validate_input_parameters'], few=True)
def random_cores(B, d, kind, form, rank, batch):
  B.any()
  arg, n, m = shape_any(B, kind, form)
  rarg, rk = rank_any(B, rank)
  mean, std = B.num('mean'), B.num('std')
  name = '%s_%swith_random_cores' % (kind, 'batch_' if batch else '')
  kw = dict(tt_rank=rarg, mean=mean, stddev=std, dtype=B.dtype)
  if batch:
    kw['batch_size'] = B.dim(batch)
  make = lambda: getattr(B.t3f, name)(arg, **kw)
  random_object(B, make(), n, m, rk, batch)
  B.random_cores('distribution', make, mean, std)


@unbounded('C18', RANDOM, ['initializers.random_tensor', 'initializers.random_tensor_batch',
                           'initializers.random_matrix', 'initializers.random_matrix_batch'], few=True)
def random_entries(B, d, kind, form, rank, batch):
  B.any()
  arg, n, m = shape_any(B, kind, form)
  rarg, rk = rank_any(B, rank)
  std = B.num('std')
  kw = dict(tt_rank=rarg, stddev=std, dtype=B.dtype)
  if batch:
    kw['batch_size'] = B.dim(batch)
  make = lambda: getattr(B.t3f, 'random_%s%s' % (kind, '_batch' if batch else ''))(arg, **kw)
  random_object(B, make(), n, m, rk, batch)
  B.random_variance('distribution', make, std * std)


@unbounded('C18', [dict(which=w, form=f, rank=r) for w in ('glorot', 'he', 'lecun') for f in ('both', 'row', 'col')
                   for r in ('number', 'list')],
           ['initializers.glorot_initializer', 'initializers.he_initializer', 'initializers.lecun_initializer'],
           few=True)
def layer_initializers(B, d, which, form, rank):
  B.any()
  arg, n, m = shape_any(B, 'matrix', form)
  rarg, rk = rank_any(B, rank)
  make = lambda: getattr(B.t3f, which + '_initializer')(arg, tt_rank=rarg, dtype=B.dtype)
  random_object(B, make(), n, m, rk, None)
  n_in, n_out = B.total_any(n), B.total_any(m)
  var = {'glorot': lambda: B.ratio(2, n_in + n_out), 'he': lambda: B.ratio(2, n_in),
         'lecun': lambda: B.ratio(1, n_in)}[which]()
  B.random_variance('distribution', make, var)


# -- Kronecker products ---------------------------------------------------------------
def kron_any(B, batch, **info):
  """A TT-matrix of rank one with square factors."""
  return B.tt_any('a', 'matrix', batch, n='n', m='n', r=1, **info)


def factor(B, c, bat):
  """[b?, 1, n, n, 1] -> [b?, n, n]."""
  return B.squeeze(B.squeeze(c, c.ndim - 1), 1 if bat else 0)


@unbounded('C16', grid(batch=[None, 'B']), ['kronecker.determinant', 'kronecker._is_kron'])
def determinant(B, d, batch):
  """The product of det(factor)^(product of the other sizes)."""
  d = B.any()
  a = kron_any(B, batch, dominant=True)
  n = B.total_any('n')
  want = B.fold('D', lambda i: B.pow(B.fn('det', factor(B, B.core(a, i), batch is not None)), B.ratio(n, B.size_any('n', i))),
                lambda x, y: x * y)
  with B.invariants(want):
    r = B.t3f.kronecker.determinant(a)
  B.eq('product-rule', r, want(d))


@unbounded('C16', grid(batch=[None, 'B'], op=['inv', 'cholesky']), ['kronecker.inv', 'kronecker.cholesky'])
def kron_factors(B, d, batch, op):
  B.any()
  bat = batch is not None
  a = kron_any(B, batch, **{'dominant' if op == 'inv' else 'spd': True})
  r = getattr(B.t3f.kronecker, op)(a)
  B.true('kind', B.is_batch(r) == bat and B.is_matrix(r))
  o = ['b'] * bat

  def holds(what, k, v):
    v, p = B.squeeze(v, v.ndim - 1), B.prefix(a, k)
    p = B.squeeze(p, p.ndim - 1)
    if op == 'inv':
      e = B.eye(v.shape[-1])
      if bat:
        e = B.expand(e, 0) * B.ones([B.dim(batch), 1, 1])
      B.eq('a*inverse-is-identity/' + what, B.contract([o + ['i', 'j'], o + ['j', 'k']], [p, v], o + ['i', 'k']), e)
    else:
      B.eq('L*L^T-is-a/' + what, B.contract([o + ['i', 'j'], o + ['k', 'j']], [v, v], o + ['i', 'k']), p)

  def like(k):
    p = B.prefix(a, k)
    v = B.fn('inv' if op == 'inv' else 'chol', B.squeeze(p, p.ndim - 1))
    return B.expand(v, v.ndim)
  B.chain_with('result', r, holds, like)


# -- construction ---------------------------------------------------------------------
def make(B, batch, cores, **kw):
  return (B.t3f.TensorTrain if batch is None else B.t3f.TensorTrainBatch)(cores, **kw)


@unbounded('C02', grid(kind=KINDS, batch=[None, 'B'], given=['none', 'shape', 'ranks', 'all', 'raw']),
           ['tensor_train.__init__', 'tensor_train._are_tt_cores_valid', 'tensor_train._infer_raw_shape',
            'tensor_train._infer_tt_ranks', 'tensor_train_batch.__init__',
            'tensor_train_batch._are_batch_tt_cores_valid', 'tensor_train_batch._infer_batch_raw_shape',
            'tensor_train_batch._infer_batch_tt_ranks', 'shapes.clean_raw_shape'])
def constructed(B, d, kind, batch, given):
  """The object reports the cores that it was given."""
  B.any()
  a = B.tt_any('a', kind, batch)
  mat = kind == 'matrix'
  kw = {}
  if given in ('shape', 'all'):
    kw['shape'] = [B.modes_any('n'), B.modes_any('m')] if mat else B.modes_any('n')
  if given in ('ranks', 'all'):
    kw['tt_ranks'] = B.ranks_any('a_r')
  if given == 'raw':
    kw['shape'] = a.get_raw_shape()
    kw['tt_ranks'] = a.get_tt_ranks()
  if batch and given == 'all':
    kw['batch_size'] = B.dim(batch)
  x = make(B, batch, B.cores_any('a', kind, batch), **kw)
  B.chain('same-value', x, B.flat(a), lambda k: B.prefix(a, k))
  B.modes_are('shape', x, 'n', 'm' if mat else None)
  B.ranks_are('ranks', x, lambda k: B.rank_of(a, k))
  if batch:
    B.same('batch-size', x.batch_size, B.dim(batch))


@unbounded('C02', [dict(kind=k, batch=b, bad=w, at=i) for k in KINDS for b in (None, 'B') for i in ('first', 'K', 'last')
                   for w in ('mode', 'mode-col', 'rank', 'stated-rank', 'dtype', 'ndim', 'batch')
                   if not ((w == 'mode-col' and k == 'tensor') or (w == 'batch' and not b))],
           ['tensor_train._are_tt_cores_valid', 'tensor_train_batch._are_batch_tt_cores_valid',
            'shapes.are_dims_different'])
def inconsistent(B, d, kind, batch, bad, at):
  """One core that does not fit, at any position."""
  d = B.any()
  mat = kind == 'matrix'
  k = {'first': 0, 'K': B.at_k(), 'last': d - 1}[at]
  cores = B.cores_any('a', kind, batch)
  dims = list(cores[k].shape)
  o = 1 if batch else 0
  x = B.dim('x')
  kw = {}
  if bad.startswith('mode'):
    j = 1 if bad == 'mode-col' else 0
    s = [B.modes_any('n')] + ([B.modes_any('m')] if mat else [])
    B.require('!=', x, s[j][k])
    s[j] = B.put(s[j], k, x)
    kw['shape'] = s if mat else s[0]
  elif bad == 'stated-rank':
    s = B.ranks_any('a_r')
    B.require('!=', x, s[k])
    kw['tt_ranks'] = B.put(s, k, x)
  else:
    dt = None
    if bad == 'rank':
      B.require('!=', x, dims[o])
      dims[o] = x
    elif bad == 'dtype':
      dt = 'float32'
    elif bad == 'ndim':
      dims = dims[:-1] + [1] + dims[-1:] if not mat else dims[:-2] + dims[-1:]
    elif bad == 'batch':
      B.require('!=', x, dims[0])
      dims[0] = x
    cores = B.put(cores, k, B.tensor('odd', dims, dt))
  kw['convert_to_tensors'] = False
  B.raises('refused', ValueError, lambda: make(B, batch, cores, **kw))


def sizes_odd(B, stem, at, x):
  """Sizes that differ from the others at one position."""
  s = B.modes_any(stem)
  B.require('!=', x, s[at])
  return B.put(s, at, x)


@unbounded('C22', [dict(op=o, kind=k, at=i, which=w) for o in ('add', 'multiply') for k in KINDS
                   for i in ('first', 'K', 'last') for w in ((0, 1) if k == 'matrix' else (0,))],
           ['ops.add', 'ops.multiply'])
def different_shapes(B, d, op, kind, at, which):
  """Sizes that differ at one position, any."""
  d = B.any()
  k = {'first': 0, 'K': B.at_k(), 'last': d - 1}[at]
  x = B.dim('x')
  odd = sizes_odd(B, 'nm'[which], k, x)
  a, b = B.tt_any('a', kind), B.tt_any('b', kind, **{'nm'[which]: odd})
  f = getattr(B.t3f, op)
  B.raises('refused', ValueError, lambda: f(a, b))
  B.raises('refused-swapped', ValueError, lambda: f(b, a))


@unbounded('C16', [dict(op=o, batch=b, at=i) for o in ('determinant', 'slog_determinant', 'inv', 'cholesky')
                   for b in (None, 'B') for i in ('K', 'last')],
           ['kronecker._is_kron', 'kronecker.determinant', 'kronecker.slog_determinant', 'kronecker.inv',
            'kronecker.cholesky'])
def not_kronecker(B, d, op, batch, at):
  d = B.any()
  x = B.dim('x')
  B.require('<', 1, x)
  k = {'K': B.at_k(), 'last': d - 1}[at]
  a = B.tt_any('a', 'matrix', batch, m='n', r=B.put(B.ranks_any(1), k, x))
  B.raises('refused', ValueError, lambda: getattr(B.t3f.kronecker, op)(a))


# -- regularizers -----------------------------------------------------------------------
@unbounded('C23', grid(kind=KINDS), ['regularizers.cores_regularizer'])
def cores_regularizer(B, d, kind):
  d = B.any()
  a = B.tt_any('a', kind)
  s = B.num('s')
  lab = list('rnms' if kind == 'matrix' else 'rns')
  want = B.fold('P', lambda i: B.contract([lab, lab], [B.core(a, i)] * 2, []), lambda x, y: x + y)
  with B.invariants(want):
    r = B.t3f.cores_regularizer(lambda c: B.tf.reduce_sum(c * c), s)(a)
  B.eq('penalty', r, want(d) * s)


@unbounded('C23', grid(kind=KINDS), ['regularizers.l2_regularizer', 'ops.frobenius_norm_squared'])
def l2_regularizer(B, d, kind):
  B.any()
  a = B.tt_any('a', kind)
  s = B.num('s')
  with B.orthogonalized() as log:
    r = B.t3f.l2_regularizer(s)(a)
  o = B.called(log, a)
  B.orthonormal_prefix(o)
  v = B.flat(o)
  B.eq('penalty', r, B.inner(v, v) * s)


# -- tangent spaces -------------------------------------------------------------
class Onto(object):
  """The projection of a batch of objects on the tangent space at x."""

  def __init__(self, B, log, x, pre, suf, core):
    self.B, self.log, self.x, self.core = B, log, x, core
    self.lhs, self.rhs = B.in_left(log, x, pre), B.in_right(log, x, suf)

  def value(self, bs, mix):
    """(value, prefix products); mix combines the elements of the batch."""
    B = self.B
    for o in B.interfaces(self.log, self.x):
      B.orthonormal_prefix(o)
    v = B.variation(self.log, self.x, self.lhs, self.rhs, self.core)
    return B.tangent_any(self.log, self.x, lambda k: mix(v(k)), bs=bs)


def tangent_result(B, name, r, x, batch, want, inv):
  B.true(name + '/remembers-the-point', getattr(r, 'projection_on', None) is x)
  B.true(name + '/kind', B.is_batch(r) == batch)
  B.chain(name, r, want, inv)


def onto(B, log, x, z, size):
  bat = B.is_batch(z)
  return Onto(B, log, x, lambda k: B.prefix(z, k, batch=size), lambda k: B.suffix(z, k, batch=size),
              lambda k: B.core(z, k) if bat else B.expand(B.core(z, k), 0))


def oracle(B, x, v, bat):
  """The same concretely; v: dense value of the object to project."""
  from t3v.contracts.tangent import Frame
  return B.flat_value(Frame(B, x).project(v, bat), bat, B.is_matrix(x)), None


@unbounded('C13', grid(kind=KINDS, batch=[None, 'B']), ['riemannian.project'])
def project(B, d, kind, batch):
  B.any()
  x, z = B.tt_any('x', kind), B.tt_any('z', kind, batch)
  size = size_of(B, batch)
  with B.orthogonalized() as log:
    p = onto(B, log, x, z, size)
    with B.invariants(p.lhs, p.rhs):
      r = B.t3f.project(z, x)
  bat = batch is not None
  want, inv = p.value([size] if bat else [], (lambda v: v) if bat else (lambda v: B.squeeze(v, 0))) \
      if B.symbolic else oracle(B, x, B.den(z), bat)
  tangent_result(B, 'projection', r, x, bat, want, inv)


@unbounded('C13', grid(kind=KINDS), ['riemannian.project'])
def residual(B, d, kind):
  """The difference is orthogonal to the tangent space."""
  B.any()
  x, z = B.tt_any('x', kind), B.tt_any('z', kind)
  with B.orthogonalized() as log:
    p = onto(B, log, x, z, 1)
    with B.invariants(p.lhs, p.rhs):
      p.r = B.t3f.project(z, x)
  if B.symbolic:
    want, inv = p.value([], lambda v: B.squeeze(v, 0))
    tangent_result(B, 'projection', p.r, x, False, want, inv)
  B.residual('residual', p, x, z)


@unbounded('C13', grid(kind=KINDS, weights=['none', 'vector', 'column', 'matrix', 'plain']), ['riemannian.project_sum'])
def project_sum(B, d, kind, weights):
  B.any()
  x, z = B.tt_any('x', kind), B.tt_any('z', kind, None if weights == 'plain' else 'B')
  size = size_of(B, None if weights == 'plain' else 'B')
  w = None if weights in ('none', 'plain') else \
      B.tensor('w', [size] + {'vector': [], 'column': [1], 'matrix': [B.dim('N')]}[weights])
  with B.orthogonalized() as log:
    p = onto(B, log, x, z, size)
    with B.invariants(p.lhs, p.rhs):
      r = B.t3f.project_sum(z, x) if w is None else B.t3f.project_sum(z, x, w)
  bat = B.is_batch(r)

  def mix(v):
    lab = list(range(v.ndim - 1))
    if w is None:
      return B.contract([['b'] + lab], [v], lab)
    if weights == 'vector':
      return B.contract([['b'] + lab, ['b']], [v, w], lab)
    u = B.contract([['b'] + lab, ['b', 'q']], [v, w], ['q'] + lab)
    return u if bat else B.squeeze(u, 0)
  if not bat and weights == 'matrix':
    B.same('single-combination', B.dim('N'), 1)
  if B.symbolic:
    want, inv = p.value([w.shape[1]] if bat else [], mix)
  else:
    from t3v.contracts.products import as_batch
    want, inv = oracle(B, x, mix(as_batch(B, z)), bat)
  tangent_result(B, 'projection', r, x, bat, want, inv)


@unbounded('C13', grid(batch=[None, 'B']), ['riemannian.project_matmul'])
def project_matmul(B, d, batch):
  B.any()
  x, z = B.tt_any('x', 'matrix'), B.tt_any('z', 'matrix', batch)
  a = B.tt_any('a', 'matrix', m='n')
  size = size_of(B, batch)

  def pre(k):
    return B.contract([['i', 'j', 'r'], ['b', 'j', 'k', 's']], [B.prefix(a, k), B.prefix(z, k, batch=size)],
                      ['b', 'i', 'k', 'r', 's'])

  def suf(k):
    return B.contract([['r', 'i', 'j'], ['b', 's', 'j', 'k']], [B.suffix(a, k), B.suffix(z, k, batch=size)],
                      ['b', 'r', 's', 'i', 'k'])

  def core(k):
    c = B.core(z, k) if batch else B.expand(B.core(z, k), 0)
    return B.contract([['r', 'i', 'j', 't'], ['b', 's', 'j', 'k', 'u']], [B.core(a, k), c],
                      ['b', 'r', 's', 'i', 'k', 't', 'u'])
  with B.orthogonalized() as log:
    p = Onto(B, log, x, pre, suf, core)
    with B.invariants(p.lhs, p.rhs):
      r = B.t3f.project_matmul(z, x, a)
  bat = batch is not None
  if B.symbolic:
    want, inv = p.value([size] if bat else [], (lambda v: v) if bat else (lambda v: B.squeeze(v, 0)))
  else:
    from t3v.contracts.products import matprod
    want, inv = oracle(B, x, matprod(B, B.den(a), B.den(z), B.d, False, bat), bat)
  tangent_result(B, 'projection', r, x, bat, want, inv)


# -- shortcuts for tangent vectors ------------------------------------------------
@unbounded('C14', [dict(kind=k, b1=p[0], b2=p[1]) for k in KINDS for p in FORM],
           ['riemannian.pairwise_flat_inner_projected'])
def inner_projected(B, d, kind, b1, b2):
  B.any()
  space = B.tangent_space(kind)
  p = B.tangent_vector(space, 'p', [B.dim('B')] if b1 else [])
  q = B.tangent_vector(space, 'q', [B.dim('B')] if b2 else [])

  def scalar(a, b):
    a, b = (v if bs else B.expand(v, 0) for v, bs in ((a, b1), (b, b2)))
    lab = ['a%d' % i for i in range(a.ndim - 1)]
    return B.contract([['p'] + lab, ['q'] + lab], [a, b], ['p', 'q'])
  with B.invariants(lambda k: scalar(p.at(k), q.at(k))):
    r = B.t3f.pairwise_flat_inner_projected(p.y, q.y)
  B.same('dtype', r.dtype, B.dtype)
  B.eq('all-scalar-products', r, scalar(B.whole(p), B.whole(q)))


@unbounded('C14', [dict(kind=k, batch=b, coef=c, count=n) for k in KINDS for b in (None, 'B')
                   for c in ('none', 'vector') + (('matrix',) if b else ()) for n in (1, 2)],
           ['riemannian.add_n_projected'])
def sum_projected(B, d, kind, batch, coef, count):
  B.any()
  space = B.tangent_space(kind)
  bs = [B.dim('B')] if batch else []
  ps = [B.tangent_vector(space, 'p%d' % i, bs) for i in range(count)]
  if coef == 'none':
    r = B.t3f.add_n_projected([p.y for p in ps])
    mix = lambda i, v: v
  elif coef == 'vector':
    c = [B.num('c0'), -B.num('c1')][:count]
    r = B.t3f.add_n_projected([p.y for p in ps], c)
    mix = lambda i, v: v * c[i]
  else:
    c = B.tensor('c', [count] + bs)
    r = B.t3f.add_n_projected([p.y for p in ps], c)

    def mix(i, v):
      lab = ['b'] + list(range(v.ndim - 1))
      return B.contract([lab, ['b']], [v, B.getitem(B.val(c), (i, slice(None)))], lab)

  def total(f):
    v = mix(0, f(ps[0]))
    for i, p in enumerate(ps[1:]):
      v = v + mix(i + 1, f(p))
    return v
  want, inv = B.tangent_sum(space, lambda k: total(lambda p: p.at(k)), bs) if B.symbolic else (total(B.whole), None)
  tangent_result(B, 'sum', r, space[0], batch is not None, want, inv)
  B.rank_limit_any('rank-not-grown', r, lambda k: ps[0].y.get_tt_ranks()[k])


@unbounded('C14', grid(kind=KINDS, batch=[None, 'B']), ['riemannian.tangent_space_to_deltas'])
def deltas(B, d, kind, batch):
  B.any()
  space = B.tangent_space(kind)
  p = B.tangent_vector(space, 'p', [B.dim('B')] if batch else [])
  ds = B.t3f.tangent_space_to_deltas(p.y)
  B.deltas_are('variations', ds, space, p)


@unbounded('C14', grid(kind=KINDS, batch=[None, 'B'], given=[False, True]), ['riemannian.deltas_to_tangent_space'])
def from_deltas(B, d, kind, batch, given):
  B.any()
  space = B.tangent_space(kind)
  bs = [B.dim('B')] if batch else []
  ds = B.free_cores(space, 'd', bs)
  x = space[0]
  with B.orthogonalized(space) as log:
    r = B.t3f.riemannian.deltas_to_tangent_space(ds, x, **(dict(left=space[1], right=space[2]) if given else {}))
  B.true('as-many-sweeps', len(log) == 0 or not given)
  want, inv = B.tangent_of(space, ds, bs)
  tangent_result(B, 'tangent', r, x, batch is not None, want, inv)


# -- approximate sums -----------------------------------------------------------
def total(vs):
  r = vs[0]
  for v in vs[1:]:
    r = r + v
  return r


@unbounded('C19', grid(kind=KINDS, batch=[None, 'B'], count=[1, 2, 3, 4, 5, 8, 9]), ['approximate.add_n'], few=True)
def approximate_sum(B, d, kind, batch, count):
  """add and round by their contracts (C03, C11): unless the limit is effective
  the value is the sum."""
  B.any()
  xs = [B.tt_any('a%d' % i, kind, batch) for i in range(count)]
  cap = 10 ** 6
  with B.sums(cap) as log:
    r = B.t3f.approximate.add_n(xs, cap)
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r) == (kind == 'matrix'))
  B.wf_any('sum', r)
  B.eq('value', B.value_of(log, r), total([B.flat(x) for x in xs]))


@unbounded('C19', grid(kind=KINDS, count=[2, 3, 5]), ['approximate.add_n'], few=True)
def approximate_sum_ranks(B, d, kind, count):
  B.any()
  xs = [B.tt_any('a%d' % i, kind) for i in range(count)]
  cap = B.dim('cap')
  with B.sums(cap):
    r = B.t3f.approximate.add_n(xs, cap)
  B.rank_limit_any('rank-limit', r, lambda i: cap)


@unbounded('C19', grid(kind=KINDS, size=[1, 2, 3, 4, 5], coef=['none', 'vector', 'matrix', 'column']),
           ['approximate.reduce_sum_batch'], few=True)
def approximate_batch_sum(B, d, kind, size, coef):
  B.any()
  a = B.tt_any('a', kind, size)
  cap = 10 ** 6
  N = dict(matrix=3, column=1).get(coef)
  kw, weigh = {}, lambda v: v
  if coef == 'vector':
    kw['coef'] = B.tensor('c', [size])
    c = B.val(kw['coef'])
    weigh = lambda v: B.contract([['b'], ['b'] + list(range(v.ndim - 1))], [c, v], ['b'] + list(range(v.ndim - 1)))
  elif N:
    kw['coef'] = B.tensor('c', [size, N])
    c = B.val(kw['coef'])
    def weigh(v):
      rest = list(range(v.ndim - 1))
      w = B.contract([['b', 'q'], ['b'] + rest], [c, v], ['b', 'q'] + rest)
      return B.reshape(w, [size * N] + list(v.shape)[1:])
  with B.batch_sums(cap, a, size, weigh, N) as log:
    r = B.t3f.approximate.reduce_sum_batch(a, cap, **kw)
  B.true('kind', B.is_batch(r) == bool(N) and B.is_matrix(r) == (kind == 'matrix'))
  v = weigh(B.flat(a))
  if N:
    v = B.reshape(v, [size, N] + list(v.shape)[1:])
  B.eq('value', B.last_level('sum', log, r, N), total([B.getitem(v, (i,)) for i in range(size)]))


# -- variables ------------------------------------------------------------------
@unbounded('C20', grid(kind=KINDS, batch=[None, 'B']), ['variables.get_variable', 'variables.assign'])
def variable(B, d, kind, batch):
  B.any()
  a = B.tt_any('a', kind, batch)
  b = B.tt_any('b', kind, batch, r='a_r')
  v = B.t3f.get_variable('v', initializer=a)
  B.true('batch', B.is_batch(v) == (batch is not None))
  B.chain('variable', v, B.flat(a), lambda k: B.prefix(a, k))
  w = B.t3f.assign(v, b)
  B.true('assigned-batch', B.is_batch(w) == (batch is not None))
  B.chain('assigned', w, B.flat(b), lambda k: B.prefix(b, k))
