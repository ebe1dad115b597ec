"""Slicing and element access."""
import itertools

from t3v.contracts import contract, grid
from t3v.contracts.arith import KINDS

# specs are strings: i<k> fixed index, n negative, : everything, a:b slices
SPECS1 = [':', '1:', ':2', '1:2', '::2', '-1:', ':-1', '::-1']


def parse(s):
  if s.startswith('i'):
    return int(s[1:])
  if s == 'n':
    return -1
  p = [int(x) if x else None for x in s.split(':')]
  return slice(*p)


def need(B, x, s):
  """Sizes large enough for the index (an explicit precondition)."""
  if s.startswith('i'):
    B.require('<', int(s[1:]), x)
  elif s not in (':',):
    B.require('<=', 3, x)


def _specs(d):
  one = [[':'] * k + [s] + [':'] * (d - k - 1) for k in range(d) for s in SPECS1]
  mixed = []
  if d == 2:
    mixed = [['i0', ':'], [':', 'i1'], ['n', '1:'], ['1:2', 'n'], ['::2', 'i2'], ['i1', ':2']]
  if d == 3:
    mixed = [['i0', ':', ':'], [':', 'i1', ':'], [':', ':', 'n'], ['i1', 'i0', ':'], [':', 'i0', 'i2'],
             ['i2', ':', 'n'], ['1:', 'i1', ':2'], ['i0', '::2', '1:']]
  if d == 4:
    mixed = [['i0', ':', 'i1', ':'], [':', 'i1', 'i0', ':'], ['i1', 'i1', ':', 'i0'], [':', 'n', ':', 'i2'],
             ['1:', 'i1', 'i2', '::2'], [':', 'i0', 'i1', 'i2']]
  return one, mixed


def _quick():
  out = []
  for d in (1, 2, 3, 4):
    one, mixed = _specs(d)
    for s in (one if d <= 2 else []) + mixed:
      out.append(dict(spec=s))
  return out


def patterns(d, kinds='i:s'):
  """Every combination of fixed indices, full and partial slices (at least one
  mode remains)."""
  ints, parts = ('i0', 'n', 'i1', 'i2'), ('1:', '::2', ':2', '::-1', '1:2', ':-1')
  out = []
  for p in itertools.product(kinds, repeat=d):
    if all(c == 'i' for c in p):
      continue
    k = len(out)
    out.append([':' if c == ':' else (ints if c == 'i' else parts)[(k + 3 * j) % (4 if c == 'i' else 6)]
                for j, c in enumerate(p)])
  return out


@contract('C09', _quick(), [dict(spec=s) for d in (3, 4) for s in _specs(d)[0]] +
          [dict(spec=s) for d in (2, 3, 4) for s in patterns(d)] +
          [dict(spec=s) for d in (5, 6) for s in patterns(d, 'i:')],
          functions=['tensor_train.__getitem__'])
def slices(B, spec):
  d = len(spec)
  a = B.tt('a', d, 'tensor')
  for k, s in enumerate(spec):
    need(B, B.dim('n%d' % (k + 1)), s)
  ix = tuple(parse(s) for s in spec)
  r = a[ix]
  B.same_tt('part', r, B.getitem(B.den(a), ix))


def _batch_specs():
  out = []
  for b in ('i0', 'i1', 'n', ':', '1:', '::2', ':2'):
    out.append(dict(b=b, spec=None, kind='tensor'))
    out.append(dict(b=b, spec=None, kind='matrix'))
    for s in ([':'], ['1:'], [':', 'i1'], ['i0', ':'], ['1:', '::2'], ['i0', ':', 'i2'], [':', 'i1', 'i0'],
              ['i1', 'i0', ':'], [':', 'i0', ':']):
      out.append(dict(b=b, spec=s, kind='tensor'))
  return out


@contract('C09', _batch_specs(), [dict(b=('i1', ':', '::2')[k % 3], spec=s, kind='tensor')
                                  for d in (2, 3, 4, 5) for k, s in enumerate(patterns(d, 'i:s' if d < 4 else 'i:'))],
          functions=['tensor_train_batch.__getitem__', 'tensor_train_batch._full_getitem',
                                            'tensor_train_batch._batch_dim_getitem'])
def batch_slices(B, b, spec, kind):
  d = 2 if spec is None else len(spec)
  a = B.tt('a', d, kind, 'P')
  need(B, B.dim('P'), b)
  if spec is None:
    ix = parse(b)
    want = B.getitem(B.den(a), ix)
  else:
    for k, s in enumerate(spec):
      need(B, B.dim('n%d' % (k + 1)), s)
    ix = (parse(b),) + tuple(parse(s) for s in spec)
    want = B.getitem(B.den(a), ix)
  r = a[ix]
  B.true('batch-result', B.is_batch(r) == (':' in b))
  B.same_tt('part', r, want)


@contract('C09', [dict(d=d, kind='tensor', batch=b, lead=l) for d in (1, 2, 3) for b in (None, 'P') for l in (1, 2, 3)] +
          [dict(d=d, kind='matrix', batch=None, lead=l) for d in () for l in (1,)],
          [dict(d=4, kind='tensor', batch=b, lead=1) for b in (None, 'P')],
          functions=['ops.gather_nd'])
def elements(B, d, kind, batch, lead):
  """Elements at arbitrary index rows."""
  a = B.tt('a', d, kind, batch)
  v = B.den(a)
  idx = B.index_tensor('ix', [B.dim('z%d' % i) for i in range(lead)], list(v.shape))
  r = B.t3f.gather_nd(a, idx)
  B.same('dtype', r.dtype, B.dtype)
  B.eq('elements', r, B.gather_multi(v, 0, B.columns(idx)))


@contract('C09', grid(d=[1, 2, 3], batch=[None, 'P']), deep=(), functions=['ops.gather_nd'])
def elements_by_arrays(B, d, batch):
  """Index rows given as an array."""
  a = B.tt('a', d, 'tensor', batch)
  v = B.den(a)
  idx = B.index_tensor('ix', [B.dim('z')], list(v.shape))
  B.eq('elements', B.t3f.gather_nd(a, B.plain(idx)), B.gather_multi(v, 0, B.columns(idx)))


def _number(B, i, form):
  return {'tensor': lambda: B.tf.constant(i), 'numpy': lambda: B.np.int64(i), 'int': lambda: i}[form]()


@contract('C09', [dict(spec=s, form=f, b=b) for f in ('tensor', 'numpy')
                  for s in ('i:', ':i', 'i:i', ':i:', 'ii:', ':ii') for b in (None, 'i', ':')] +
          [dict(spec=None, form=f, b='i') for f in ('tensor', 'numpy')], deep=(),
          functions=['tensor_train.__getitem__', 'tensor_train_batch.__getitem__', 'tensor_train_batch._full_getitem',
                     'tensor_train_batch._do_collapse_dim'])
def typed_indices(B, spec, form, b):
  """Indices that are scalar tensors or numpy numbers."""
  d = 2 if spec is None else len(spec)
  a = B.tt('a', d, 'tensor', None if b is None else 'P')
  v = B.den(a)
  for n in v.shape:
    B.require('<=', 2, n)
  ix = ([] if b is None else [b]) + list(spec or '')
  plain = tuple(slice(None) if s == ':' else k % 2 for k, s in enumerate(ix))
  typed = tuple(i if isinstance(i, slice) else _number(B, i, form) for i in plain)
  r = a[typed if spec is not None else typed[0]]
  B.true('batch-result', B.is_batch(r) == (b == ':'))
  B.same_tt('part', r, B.getitem(v, plain))


@contract('C09', grid(d=[1, 2, 3], batch=[None, 'P'], n=[0, 1, 2, 3, 4, 5]), deep=(), replay_only=True,
          functions=['tensor_train.__getitem__', 'tensor_train_batch.__getitem__'],
          domain='sampled: slices with arbitrary start, stop and step')
def any_slices(B, d, batch, n):
  a = B.tt('a', d, 'tensor', batch)
  v = B.den(a)
  rng = B.rng('slices%d' % n)
  ix = []
  for k, size in enumerate(v.shape):
    if rng.integers(4) == 0 and k < v.ndim - 1:
      ix.append(int(rng.integers(-size, size)))
      continue
    while True:
      start, stop, step = (None if rng.integers(3) == 0 else int(rng.integers(-size - 1, size + 2)) for _ in range(3))
      s = slice(start, stop, (step or None) if step is None or abs(step) < 4 else None)
      if len(range(size)[s]):
        break
    ix.append(s)
  r = a[tuple(ix)]
  B.same_tt('part', r, B.getitem(v, tuple(ix)))


def anywhere(B, k, s, size):
  """An index at an arbitrary position of mode k: i from the left, j from the
  right, s start:stop, a start:, z :stop, n the last ones, m all but the last
  ones, r everything backwards, t every second from a start."""
  if s == ':':
    return slice(None)
  if s == 'r':
    return slice(None, None, -1)
  p = B.dim('p%d' % k)
  B.require('<' if s == 'm' else '<=', p, size)
  if s == 's':
    q = B.dim('q%d' % k)
    B.require('<=', p - 1 + q, size)
    return slice(p - 1, p - 1 + q)
  return {'i': p - 1, 'j': -p, 'a': slice(p - 1, None), 'z': slice(None, p), 'n': slice(-p, None),
          'm': slice(None, -p), 't': slice(p - 1, None, 2)}[s]


ANYWHERE = (['i:', ':i', 'j:', ':j', 's', 'a', 'z', 'n', 'm', 't', 's:', ':s', 'a:', ':z', 'n:', ':m', 'si', 'is', 'ja', 'zj',
             'st', 'rs', 'ii:', 'i:i', ':ii', 'i::', ':i:', '::i', 's:j', 'isi', 'sis', 'jsz', 'iia', 'nii', 'aia'] +
            ['%s%s%s%s' % (a, b, c, d) for a in 'i:' for b in 'js' for c in 'i:' for d in 'ia' if (a + b + c + d).strip('ij')])


@contract('C09', [dict(spec=s, b=None) for s in ANYWHERE] +
          [dict(spec=s, b=b) for s in ANYWHERE if len(s) < 4 for b in 'ijs:anz'] +
          [dict(spec='::', b=b) for b in 'ijsanzmt'],
          [dict(spec=''.join(s), b=None) for d in (5, 6) for s in itertools.product('i:', repeat=d) if ':' in s],
          deep=(), functions=['tensor_train.__getitem__', 'tensor_train_batch.__getitem__', 'tensor_train_batch._full_getitem',
                              'tensor_train_batch._do_collapse_dim'])
def any_position(B, spec, b):
  """Indices and slices at arbitrary positions."""
  a = B.tt('a', len(spec), 'tensor', None if b is None else 'P')
  v = B.den(a)
  ix = tuple(anywhere(B, k, s, n) for k, (s, n) in enumerate(zip(('' if b is None else b) + spec, v.shape)))
  r = a[ix]
  B.true('batch-result', B.is_batch(r) == (b is not None and b not in 'ij'))
  B.same_tt('part', r, B.getitem(v, ix))


@contract('C09', [dict(kind=k, b=b) for k in KINDS for b in 'ijsanzmt'], deep=(),
          functions=['tensor_train_batch.__getitem__', 'tensor_train_batch._batch_dim_getitem'])
def any_elements(B, kind, b):
  """Elements and ranges of a batch at arbitrary positions."""
  a = B.tt('a', 2, kind, 'P')
  v = B.den(a)
  ix = anywhere(B, 0, b, B.dim('P'))
  r = a[ix]
  B.true('batch-result', B.is_batch(r) == (b not in 'ij'))
  B.same_tt('part', r, B.getitem(v, (ix,)))


@contract('C09', grid(d=[6, 7, 8, 9], batch=[None, 'P'], n=[0, 1, 2]), deep=(), replay_only=True, large=False,
          functions=['tensor_train.__getitem__', 'tensor_train_batch.__getitem__'],
          domain='sampled: fixed indices and slices of many modes')
def many_modes(B, d, batch, n):
  rng = B.rng('modes%d' % n)
  ns = [int(x) for x in rng.integers(1, 4, size=d)]
  a = B.tt('a', d, 'tensor', batch, n=ns)
  v = B.den(a)
  ix = [int(rng.integers(-k, k)) if rng.integers(2) else slice(int(rng.integers(k)), None) if rng.integers(2)
        else slice(None, None, int(rng.choice([-1, 1, 2]))) for k in v.shape]
  keep = int(rng.integers(1 if batch else 0, len(ix)))
  if isinstance(ix[keep], int):
    ix[keep] = slice(None)
  r = a[tuple(ix)]
  B.true('batch-result', B.is_batch(r) == (batch is not None and isinstance(ix[0], slice)))
  B.same_tt('part', r, B.getitem(v, tuple(ix)))
