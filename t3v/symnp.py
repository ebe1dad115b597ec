"""numpy for code that runs on symbolic dimensions.

Arrays that contain a symbolic number are object arrays of Num; everything else
is the real numpy.
"""
import builtins
import numbers
import sys
import types

import numpy as _np

from t3v import num
from t3v.num import Num, Unsupported, nmin, nmax

_this = sys.modules[__name__]


class SymArray(_np.ndarray):
  """Object array of Nums."""

  def astype(self, dtype, *a, **k):
    return self.copy()

  def item(self, *a):
    return self[a] if a else self.reshape(-1)[0]

  def prod(self, axis=None, **k):
    return prod(self, axis=axis)

  def _compared(name):
    def g(self, o):
      r = getattr(_np.ndarray, name)(self, o)
      if r is NotImplemented:
        return r
      return _np.bool_(r) if isinstance(r, (bool, _np.bool_)) else _np.asarray(r).astype(bool)
    return g
  __lt__, __le__, __gt__ = _compared('__lt__'), _compared('__le__'), _compared('__gt__')
  __ge__, __eq__, __ne__ = _compared('__ge__'), _compared('__eq__'), _compared('__ne__')
  __hash__ = None
  del _compared


def _symbolic(x):
  if isinstance(x, Num):
    return True
  if isinstance(x, _np.ndarray):
    return x.dtype == object
  if isinstance(x, (list, tuple)) or _is_shape(x):
    return builtins.any(_symbolic(i) for i in x)
  return _is_tensor(x)


def _is_shape(x):
  return type(x).__name__ == 'TensorShape'


def _sequence(x):
  """x as an array with an axis of symbolic length, or None."""
  from t3v import seq
  if isinstance(x, seq.Rows):
    return x
  if seq.is_seq(x):
    return seq.seq_of(x).copy('array')
  if isinstance(x, (list, tuple)) and len(x) and builtins.all(seq.is_seq(i) for i in x):
    return seq.Rows([seq.seq_of(i) for i in x])
  return None


def _is_tensor(x):
  return hasattr(x, '_known') and hasattr(x, 'T_')


def _plainify(x):
  """Nested lists of Nums / None."""
  if _is_tensor(x):
    from t3v import symtf
    k = symtf.known_values(x)
    if k is None:
      raise Unsupported('numpy conversion of a symbolic tensor')
    return k
  if isinstance(x, _np.ndarray):
    return x
  if isinstance(x, (list, tuple)) or _is_shape(x):
    return [_plainify(i) for i in x]
  return x


def _obj(x):
  x = _plainify(x)
  def shape_of(v):
    if isinstance(v, _np.ndarray):
      return v.shape
    if isinstance(v, list):
      if not v:
        return (0,)
      s = shape_of(v[0])
      for i in v[1:]:
        if shape_of(i) != s:
          raise ValueError('setting an array element with a sequence: inhomogeneous shape')
      return (len(v),) + s
    return ()
  sh = shape_of(x)
  out = _np.empty(sh, dtype=object)
  def fill(v, pre):
    if isinstance(v, _np.ndarray):
      for i in _np.ndindex(*v.shape):
        out[pre + i] = _el(v[i])
    elif isinstance(v, list):
      for i, w in enumerate(v):
        fill(w, pre + (i,))
    else:
      out[pre] = _el(v)
  fill(x, ())
  return out.view(SymArray)


def _el(v):
  if v is None or isinstance(v, Num):
    return v
  return Num.of(v)


def array(x, dtype=None, copy=True, **k):
  s = _sequence(x)
  if s is not None:
    return s
  if _symbolic(x):
    return _obj(x)
  if _is_shape(x):
    x = list(x)
  elif isinstance(x, (list, tuple)) and builtins.any(_is_shape(i) for i in x):
    x = [list(i) if _is_shape(i) else i for i in x]
  return _np.array(x, dtype=dtype)


def asarray(x, dtype=None, **k):
  return x if isinstance(x, _np.ndarray) else array(x, dtype)


asanyarray = asarray


def _elem(f):
  def g(a, b):
    if not (_symbolic(a) or _symbolic(b)):
      return None
    a, b = _np.asarray(_obj(a)), _np.asarray(_obj(b))
    x, y = _np.broadcast_arrays(a, b)
    out = _np.empty(x.shape, dtype=object)
    for i in _np.ndindex(*x.shape):
      out[i] = f(x[i], y[i])
    return out.view(SymArray) if out.shape else out[()]
  return g


def _map_seq(f, a, b):
  """Elementwise f for a sequence of symbolic length and a number."""
  s, o = _sequence(a), _sequence(b)
  if s is None and o is None:
    return None
  from t3v import seq
  one = o if s is None else s
  if (s is not None and o is not None) or not isinstance(one, seq.Seq):
    raise Unsupported('elementwise operation of sequences')
  return one.map(lambda x: seq.nn(f(x, b if s is not None else a)), 'array')


def minimum(a, b):
  r = _map_seq(nmin, a, b)
  if r is not None:
    return r
  r = _elem(nmin)(a, b)
  return _np.minimum(a, b) if r is None else r


def maximum(a, b):
  r = _map_seq(nmax, a, b)
  if r is not None:
    return r
  r = _elem(nmax)(a, b)
  return _np.maximum(a, b) if r is None else r


def min(a, axis=None):
  if _symbolic(a):
    if axis is not None:
      raise Unsupported('min over an axis')
    return nmin(*[x for x in _obj(a).flat])
  return _np.min(a, axis=axis)


def max(a, axis=None):
  if _symbolic(a):
    if axis is not None:
      raise Unsupported('max over an axis')
    return nmax(*[x for x in _obj(a).flat])
  return _np.max(a, axis=axis)


amin, amax = min, max


def prod(a, axis=None, **k):
  s = _sequence(a)
  if s is not None:
    from t3v import seq
    if isinstance(s, seq.Seq):
      return seq.nn(seq.product(s))
    if axis in (1, -1):
      return array([seq.nn(seq.product(r)) for r in s.rows])
    raise Unsupported('prod')
  if _symbolic(a):
    o = _np.asarray(_obj(a))
    if axis is None:
      return num.prod(o.flat)
    r = _np.multiply.reduce(o, axis=axis)
    return r.view(SymArray) if isinstance(r, _np.ndarray) else r
  if _is_shape(a):
    a = list(a)
  elif isinstance(a, (list, tuple)) and builtins.any(_is_shape(i) for i in a):
    a = [list(i) if _is_shape(i) else i for i in a]
  return _np.prod(_np.asarray(a), axis=axis)


def floor(x):
  return to_int(x) if isinstance(x, Num) else _np.floor(x)


def to_int(x):
  """int(x) for non-negative symbolic x."""
  den = 1
  for c in x.t.values():
    den = den * c.denominator // _gcd(den, c.denominator)
  if den == 1 and builtins.all(e.denominator == 1 and e >= 0 for m in x.t for _, e in m):
    return x
  if builtins.any(e.denominator != 1 or e < 0 for m in x.t for _, e in m):
    raise Unsupported('int() of %s' % x)
  return (x * den) // den


def _gcd(a, b):
  while b:
    a, b = b, a % b
  return a


class _IntMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, _np.integer) or (isinstance(x, Num) and num_is_int(x))

  def __subclasscheck__(cls, c):
    return issubclass(c, _np.integer)


class integer(metaclass=_IntMeta):
  pass


class _FloatMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, _np.floating) or (isinstance(x, Num) and not num_is_int(x))


class floating(metaclass=_FloatMeta):
  pass


def num_is_int(x):
  from t3v import symtf
  return symtf._num_is_int(x)


def _wrap_result(r):
  if isinstance(r, _np.ndarray) and r.dtype == object:
    return _obj(r)
  if isinstance(r, tuple) and not hasattr(r, '_fields'):
    return tuple(_wrap_result(i) for i in r)
  return r


def _conv(x):
  if _is_shape(x) or _is_tensor(x) or isinstance(x, Num):
    return array(x)
  if isinstance(x, (list, tuple)) and _symbolic(x):
    return _obj(x)
  return x


def _row(x):
  from t3v import seq
  return seq.seq_of(x) if seq.is_seq(x) else [x] if num.is_number(x) else list(x)


def _generic(f):
  def g(*a, **k):
    from t3v import seq
    if a and isinstance(a[0], seq.Many) and f in (_np.any, _np.all) and len(a) == 1 and not k:
      return a[0].any() if f is _np.any else a[0].all()
    s = _sequence(a[0]) if a else None
    if s is not None:
      if f is _np.append and len(a) == 2 and isinstance(s, seq.Seq) and not k:
        return (s.copy('list') + _row(a[1])).copy('array')
      if f is _np.insert and len(a) == 3 and a[1] == 0 and isinstance(s, seq.Seq) and num.is_number(a[2]) and not k:
        return (seq.Seq.of([a[2]]) + s.copy('list')).copy('array')
      if f in (_np.any, _np.all) and len(a) == 1 and not k:
        return (seq.any_of if f is _np.any else seq.all_of)(s, bool)
      raise Unsupported(f.__name__)
    return _wrap_result(f(*[_conv(x) for x in a], **k))
  g.__name__ = getattr(f, '__name__', 'f')
  return g


def _seq(f):
  """Functions whose first argument is a sequence of arrays."""
  def g(xs, *a, **k):
    from t3v import seq
    if builtins.any(seq.is_seq(x) for x in xs):
      if f in (_np.vstack, _np.stack) and builtins.all(seq.is_seq(x) for x in xs) and not a and not k:
        return seq.Rows([seq.seq_of(x) for x in xs])
      if f not in (_np.hstack, _np.concatenate):
        raise Unsupported(f.__name__)
      out = seq.Seq([])
      for x in xs:
        out = out + _row(x)
      return out.copy('array')
    xs = [array(x) if (_symbolic(x) or _is_shape(x) or x is None) else x for x in xs]
    return _wrap_result(f(xs, *a, **k))
  return g


concatenate, vstack, hstack, stack = (_seq(getattr(_np, n)) for n in
                                      ('concatenate', 'vstack', 'hstack', 'stack'))
for _n in ('insert', 'append', 'delete', 'sqrt', 'abs', 'any', 'all', 'sum', 'cumprod', 'exp', 'log',
           'copy', 'flip', 'reshape', 'ravel', 'tile', 'repeat', 'transpose', 'atleast_1d', 'squeeze',
           'expand_dims', 'array_equal', 'multiply', 'add', 'subtract', 'power', 'square', 'absolute'):
  setattr(_this, _n, _generic(getattr(_np, _n)))


def full(shape, v, dtype=None):
  if isinstance(v, Num):
    out = _np.empty(shape, dtype=object)
    out[...] = v
    return out.view(SymArray)
  return _np.full(shape, v, dtype=dtype)


class linalg(object):
  @staticmethod
  def svd(a, full_matrices=True, compute_uv=True, **k):
    from t3v import symtf
    if not _is_tensor(a) or k:
      raise Unsupported('np.linalg.svd')
    r = symtf._svd(a, full_matrices=full_matrices, compute_uv=compute_uv)
    if not compute_uv:
      return r
    n = len(a.shape)
    return r[1], r[0], symtf.transpose(r[2], list(range(n - 2)) + [n - 1, n - 2])


def ones(shape, dtype=None, **k):
  return _const(shape, 1, dtype)


def zeros(shape, dtype=None, **k):
  return _const(shape, 0, dtype)


def _const(shape, v, dtype):
  if isinstance(shape, (list, tuple)) and len(shape) == 1:
    shape = shape[0]
  if isinstance(shape, Num):
    from t3v import cut
    is_int = dtype is not None and _np.dtype(dtype).kind in 'iu'
    return cut.repeat_([num.Num.const(v) if is_int else float(v)], shape).copy('array')
  return _np.full(shape, v, dtype=dtype or float)


def __getattr__(name):
  return getattr(_np, name)
