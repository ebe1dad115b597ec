"""Dense value, sums and elementwise products of TT-objects."""
from t3v.contracts import contract, grid

KINDS = ('tensor', 'matrix')
PAIRS = ((None, None), ('B', None), (None, 'B'), ('B', 'B'), ('B', 1), (1, 'B'))


def lift(B, v, batch):
  """Value with a leading batch axis of size 1 for a non-batch object."""
  return v if batch is not None else B.expand(v, 0)


def pairs(d, kinds=KINDS, ps=PAIRS):
  return [dict(d=d_, kind=k, b1=p[0], b2=p[1]) for d_ in d for k in kinds for p in ps]


def inner_ranks(a, b):
  return list(zip(a.get_tt_ranks(), b.get_tt_ranks()))[1:-1]


@contract('C01', grid(d=[1, 2, 3, 4], kind=KINDS, batch=[None, 'B']) +
          grid(d=[2], kind=KINDS, batch=[None, 'B'], dtype=['float32']),
          grid(d=[5, 6], kind=KINDS, batch=[None, 'B']),
          functions=['ops.full', 'ops._full_tt', 'ops._full_tt_batch'])
def full(B, d, kind, batch):
  a = B.tt('a', d, kind, batch)
  r = B.t3f.full(a)
  B.same('dtype', r.dtype, B.dtype)
  B.eq('value', r, B.dense(a))


@contract('C01', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B']), grid(d=[4], kind=KINDS, batch=[None, 'B']),
          functions=['shapes.shape', 'shapes.raw_shape', 'shapes.tt_ranks', 'shapes.batch_size',
                     'shapes.lazy_shape', 'shapes.lazy_raw_shape', 'shapes.lazy_tt_ranks',
                     'shapes.lazy_batch_size'])
def full_agrees_with_metadata(B, d, kind, batch):
  """Sizes reported by the query functions are those of the dense value."""
  a = B.tt('a', d, kind, batch)
  want = list(B.dense(a).shape)
  s = B.t3f.shapes
  B.same('full-shape', list(B.t3f.full(a).shape), want)
  B.same('get-shape', list(a.get_shape()), want)
  B.same('shape', B.ints(s.shape(a)), want)
  B.same('lazy-shape', B.ints(s.lazy_shape(a)), want)
  o = 1 if batch is not None else 0
  cs = [list(c.shape) for c in a.tt_cores]
  rk = [c[o] for c in cs] + [cs[-1][-1]]
  B.same('tt-ranks', B.ints(s.tt_ranks(a)), rk)
  B.same('lazy-tt-ranks', B.ints(s.lazy_tt_ranks(a)), rk)
  raw = [[c[o + 1 + i] for c in cs] for i in range(1 if kind == 'tensor' else 2)]
  B.same('raw-shape', [B.ints(x) for x in s.raw_shape(a)], raw)
  B.same('lazy-raw-shape', [B.ints(x) for x in s.lazy_raw_shape(a)], raw)
  if batch is not None:
    B.same('batch-size', B.ints(s.batch_size(a)), cs[0][0])
    B.same('lazy-batch-size', B.ints(s.lazy_batch_size(a)), cs[0][0])


@contract('C03', pairs([1, 2, 3]) + grid(d=[4], kind=KINDS, b1=[None], b2=[None]) +
          grid(d=[2], kind=KINDS, b1=[None], b2=[None], dtype=['float32']), pairs([4, 5]),
          functions=['ops.add', 'ops._add_tensor_cores', 'ops._add_matrix_cores',
                     'ops._add_batch_tensor_cores', 'ops._add_batch_matrix_cores'])
def add(B, d, kind, b1, b2):
  a, b = B.tt('a', d, kind, b1), B.tt('b', d, kind, b2)
  r = B.t3f.add(a, b)
  B.true('batch-result', B.is_batch(r) == (b1 is not None or b2 is not None))
  B.same_tt('sum', r, B.den(a) + B.den(b))
  B.same('ranks', list(r.get_tt_ranks()), [1] + [x + y for x, y in inner_ranks(a, b)] + [1])


@contract('C03', pairs([1, 2, 3], ps=PAIRS[:5]), pairs([4], ps=PAIRS[:5]),
          functions=['tensor_train_base.__add__', 'tensor_train_base.__sub__', 'ops.add', 'ops.multiply'])
def operators(B, d, kind, b1, b2):
  a, b = B.tt('a', d, kind, b1), B.tt('b', d, kind, b2)
  r = a + b
  B.same_tt('a+b', r, B.den(a) + B.den(b))
  B.same('ranks', list(r.get_tt_ranks()), [1] + [x + y for x, y in inner_ranks(a, b)] + [1])
  B.same_tt('a-b', a - b, B.den(a) - B.den(b))


@contract('C03', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B']), grid(d=[4], kind=KINDS, batch=[None, 'B']),
          functions=['tensor_train_base.__neg__', 'tensor_train_base.__sub__'])
def negation(B, d, kind, batch):
  a = B.tt('a', d, kind, batch)
  B.same_tt('-a', -a, -B.den(a))
  r = a + a
  B.same_tt('a+a', r, B.den(a) * 2)
  B.same('ranks', list(r.get_tt_ranks()), [1] + [x + y for x, y in inner_ranks(a, a)] + [1])
  B.same_tt('a-a', a - a, B.den(a) * 0)


@contract('C03', grid(d=[2], kind=KINDS, batch=[None, 'B']), grid(d=[3], kind=KINDS, batch=[None, 'B']),
          functions=['ops.add'])
def chain(B, d, kind, batch):
  """A longer expression, so that results are usable as operands."""
  a, b, c = B.tt('a', d, kind, batch), B.tt('b', d, kind), B.tt('c', d, kind, batch)
  B.same_tt('(a+b)-c', (a + b) - c, B.den(a) + B.den(b) - B.den(c))
  B.same_tt('a-(b+c)', a - (b + c), B.den(a) - B.den(b) - B.den(c))


@contract('C04', pairs([1, 2, 3]) + grid(d=[2], kind=KINDS, b1=[None], b2=[None], dtype=['float32']), pairs([4]),
          functions=['ops.multiply'])
def multiply(B, d, kind, b1, b2):
  a, b = B.tt('a', d, kind, b1), B.tt('b', d, kind, b2)
  r = B.t3f.multiply(a, b)
  B.true('batch-result', B.is_batch(r) == (b1 is not None or b2 is not None))
  B.same_tt('product', r, B.den(a) * B.den(b))
  B.same('ranks', list(r.get_tt_ranks()), [1] + [x * y for x, y in inner_ranks(a, b)] + [1])


@contract('C04', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B'], how=['pos', 'neg', 'zero', 'tensor']) +
          grid(d=[2], kind=KINDS, batch=[None, 'B'], how=['pos', 'neg', 'int'], dtype=['float32']) +
          grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B'], how=['whole']),
          grid(d=[4, 5], kind=KINDS, batch=[None, 'B'], how=['pos', 'neg', 'zero', 'tensor']),
          functions=['ops.multiply', 'tensor_train_base.__mul__', 'tensor_train_base.__rmul__'])
def scale(B, d, kind, batch, how):
  a = B.tt('a', d, kind, batch)
  if how == 'pos':
    c = B.num('c')
    B.same_tt('a*c', a * c, B.den(a) * c)
    B.same_tt('c*a', c * a, B.den(a) * c)
  elif how == 'neg':
    c = -B.num('c')
    B.same_tt('multiply', B.t3f.multiply(a, c), B.den(a) * c)
    B.same_tt('c*a', c * a, B.den(a) * c)
  elif how == 'zero':
    B.same_tt('0*a', 0. * a, B.den(a) * 0)
  elif how == 'int':
    B.same_tt('3*a', 3 * a, B.den(a) * 3)
    B.same_tt('a*-2', a * -2, B.den(a) * -2)
  elif how == 'whole':
    for c in (3, -2, 0, -1):
      B.same_tt('tensor %d' % c, B.t3f.multiply(a, B.tf.constant(c)), B.den(a) * c)
      B.same_tt('numpy %d' % c, a * B.np.int64(c), B.den(a) * c)
  else:
    c = B.tensor('c', [])
    B.same_tt('multiply', B.t3f.multiply(a, c), B.den(a) * B.val(c))


@contract('C04', pairs([2], ps=PAIRS[:5]), pairs([3], ps=PAIRS[:5]),
          functions=['tensor_train_base.__mul__', 'ops.multiply'])
def mul_operator(B, d, kind, b1, b2):
  a, b = B.tt('a', d, kind, b1), B.tt('b', d, kind, b2)
  B.same_tt('a*b', a * b, B.den(a) * B.den(b))
  B.same_tt('(a*b)*a', (a * b) * a, B.den(a) * B.den(b) * B.den(a))
  B.same_tt('a*(b+b)', a * (b + b), B.den(a) * B.den(b) * 2)


@contract('C04', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B'], r=[None, 1]), grid(d=[4], kind=KINDS, batch=[None, 'B'], r=[None, 1]),
          functions=['ops.multiply', 'tensor_train_base.__mul__'])
def square(B, d, kind, batch, r):
  """The same object on both sides, and two objects that share cores."""
  a = B.tt('a', d, kind, batch, r=None if r is None else [1] * (d + 1))
  v = B.den(a)
  p = a * a
  B.same_tt('a*a', p, v * v)
  B.same('ranks', list(p.get_tt_ranks()), [1] + [x * y for x, y in inner_ranks(a, a)] + [1])
  for k in range(d):
    b = relative(B, a, k)
    B.same_tt('shared-%d' % k, a * b, v * B.den(b))


def relative(B, a, k):
  """An object with the cores of a but the one at position k."""
  c = list(a.tt_cores)
  c[k] = B.tensor('other.%d' % k, list(c[k].shape))
  raw = [list(s) for s in a.get_raw_shape()]
  return B.tt_from_cores(c, raw[0], raw[1] if len(raw) > 1 else None, list(a.get_tt_ranks()),
                         a.batch_size if B.is_batch(a) else None)


@contract('C03', grid(d=[1, 2, 3], kind=KINDS, batch=[None, 'B'], r=[None, 1]), grid(d=[4], kind=KINDS, batch=[None, 'B'], r=[None, 1]),
          functions=['ops.add', 'tensor_train_base.__add__', 'tensor_train_base.__sub__'])
def related(B, d, kind, batch, r):
  """Sums and differences of objects that share cores."""
  a = B.tt('a', d, kind, batch, r=None if r is None else [1] * (d + 1))
  v = B.den(a)
  for k in range(d):
    b = relative(B, a, k)
    s = a + b
    B.same_tt('sum-%d' % k, s, v + B.den(b))
    B.same('ranks-%d' % k, list(s.get_tt_ranks()), [1] + [x + y for x, y in inner_ranks(a, b)] + [1])
    B.same_tt('difference-%d' % k, a - b, v - B.den(b))
