"""Approximate sums: exact when the rank limit does not bind, and within the
limit always."""
from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS


def total(B, vs):
  r = vs[0]
  for v in vs[1:]:
    r = r + v
  return r


@contract('C19', [dict(d=d, kind=k, batch=b, count=n) for d in (1, 2, 3) for k in KINDS for b in (None, 'P') for n in (1, 2, 3, 4, 5)],
          [dict(d=d, kind=k, batch=b, count=n) for d, k, b in ((1, 'tensor', None), (2, 'tensor', None), (2, 'matrix', 'P'))
           for n in (6, 7, 8, 9, 10, 11, 13, 16, 17, 19, 23, 33)],
          functions=['approximate.add_n'])
def add_n(B, d, kind, batch, count):
  if not B.symbolic and count > 5:
    B.hi = min(B.hi, 2)
  xs = [B.tt('x%d' % i, d, kind, batch) for i in range(count)]
  with B.exact_rounding() as log:
    r = B.t3f.approximate.add_n(xs, 10 ** 6)
  B.true('kind', B.is_batch(r) == (batch is not None) and B.is_matrix(r) == (kind == 'matrix'))
  if not B.wf('result', r):
    B.stop('malformed')
  B.combination('sum', log, r, total(B, [B.den(x) for x in xs]))


@contract('C19', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'P'], order=['aab', 'aba', 'baa', 'aaaa', 'abcab']), deep=(), large=False,
          functions=['approximate.add_n'])
def repeated(B, d, kind, batch, order):
  """The same object several times in the list."""
  objects = {}
  for name in order:
    if name not in objects:
      objects[name] = B.tt(name, d, kind, batch)
  xs = [objects[name] for name in order]
  with B.exact_rounding() as log:
    r = B.t3f.approximate.add_n(xs, 10 ** 6)
  if not B.wf('result', r):
    B.stop('malformed')
  B.combination('sum', log, r, total(B, [B.den(x) for x in xs]))


@contract('C19', [dict(d=d, kind=k, size=n, coef=c) for d in (1, 2, 3) for k in KINDS for n in (1, 2, 3, 4, 5)
                  for c in ('none', 'vector', 'matrix') if not (d == 3 and n > 3) and not (c == 'matrix' and n > 4)] +
          [dict(d=d, kind=k, size=n, coef='matrix', columns=1) for d in (1, 2) for k in KINDS for n in (1, 2, 3)],
          [dict(d=d, kind=k, size=n, coef=c) for d, k, c in ((1, 'tensor', 'none'), (2, 'tensor', 'vector'), (2, 'matrix', 'none'),
                                                             (2, 'tensor', 'matrix'))
           for n in (6, 7, 8, 9, 10, 11, 13, 16, 17, 19, 23, 33)],
          functions=['approximate.reduce_sum_batch'])
def reduce_sum(B, d, kind, size, coef, columns=3):
  x = B.tt('x', d, kind, size)
  v = B.den(x)
  kw = {}
  if coef != 'none':
    kw['coef'] = B.tensor('c', [size] if coef == 'vector' else [size, columns])
  def weighted(*q):
    """Sum of the elements with the weights of column q."""
    return total(B, [B.getitem(v, (i,)) if coef == 'none' else
                     B.getitem(v, (i,)) * B.getitem(kw['coef'], (i,) + q) for i in range(size)])
  want = B.stack([weighted(q) for q in range(columns)], 0) if coef == 'matrix' else weighted()
  with B.exact_rounding() as log:
    r = B.t3f.approximate.reduce_sum_batch(x, 10 ** 6, **kw)
  B.true('kind', B.is_batch(r) == (coef == 'matrix') and B.is_matrix(r) == (kind == 'matrix'))
  if not B.wf('result', r):
    B.stop('malformed')
  B.combination('sum', log, r, want)


@contract('C19', [dict(d=d, kind=k, batch=b, count=n, cap=c) for d in (2, 3) for k in KINDS for b in (None, 'P') for n in (2, 3)
                  for c in (1, 2)],
          functions=['approximate.add_n'], replay_only=True, domain='sampled: ranks after truncation')
def add_n_limited(B, d, kind, batch, count, cap):
  xs = [B.tt('x%d' % i, d, kind, batch) for i in range(count)]
  r = B.t3f.approximate.add_n(xs, cap)
  B.wf('result', r)
  for k in range(d + 1):
    B.le('rank-limit-%d' % k, int(r.get_tt_ranks()[k]), cap)


@contract('C19', [dict(d=d, kind=k, size=n, coef=c, cap=m) for d in (2, 3) for k in KINDS for n in (2, 3)
                  for c in ('none', 'vector', 'matrix') for m in (1, 2)],
          functions=['approximate.reduce_sum_batch'], replay_only=True, domain='sampled: ranks after truncation')
def reduce_sum_limited(B, d, kind, size, coef, cap):
  x = B.tt('x', d, kind, size)
  kw = {}
  if coef != 'none':
    kw['coef'] = B.tensor('c', [size] if coef == 'vector' else [size, 2])
  r = B.t3f.approximate.reduce_sum_batch(x, cap, **kw)
  B.wf('result', r)
  for k in range(d + 1):
    B.le('rank-limit-%d' % k, int(r.get_tt_ranks()[k]), cap)


@contract('C19', [dict(d=d, kind=k, size=n, form=f, coef=c) for d in (1, 2) for k in KINDS for n in (2, 3)
                  for f in ('array', 'list') for c in ('vector', 'matrix')], deep=(),
          functions=['approximate.reduce_sum_batch'])
def plain_coefficients(B, d, kind, size, form, coef):
  """Coefficients given as numbers rather than as TensorFlow tensors."""
  x = B.tt('x', d, kind, size)
  v = B.den(x)
  c = B.tensor('c', [size] if coef == 'vector' else [size, 2])
  def weighted(*q):
    return total(B, [B.getitem(v, (i,)) * B.getitem(c, (i,) + q) for i in range(size)])
  want = B.stack([weighted(q) for q in range(2)], 0) if coef == 'matrix' else weighted()
  with B.exact_rounding() as log:
    r = B.t3f.approximate.reduce_sum_batch(x, 10 ** 6, coef=B.plain(c, form))
  if not B.wf('result', r):
    B.stop('malformed')
  B.combination('sum', log, r, want)
