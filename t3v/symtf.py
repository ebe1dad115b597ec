"""The part of the TensorFlow API that t3f uses, over symbolic tensors.

This is the assumed contract of the dependency: every function here states the
mathematical meaning of the TensorFlow function with the same name (over exact
reals).  It is imported instead of tensorflow when the real t3f sources are
loaded for symbolic execution.
"""
import builtins
import contextlib
import itertools
import numbers
import sys
import types
from fractions import Fraction

import numpy as _np

from t3v import expr as E
from t3v import num
from t3v import tensor as X
from t3v.num import Num, Unsupported, decide, prod
from t3v.tensor import InvalidArgument, T, Atom, Sum, axis_size

newaxis = None
_bool = builtins.bool


def _nn(n):
  """Constant integral Nums become ints."""
  if isinstance(n, Num) and n.is_const() and n.const_value().denominator == 1:
    return int(n.const_value())
  return n


# -- dtypes -------------------------------------------------------------------
class DType(object):

  def __init__(self, name, integer):
    self.name = name
    self.is_integer = integer
    self.is_floating = not integer and name != 'bool' and name != 'string'
    self.is_complex = name.startswith('complex')
    self.is_bool = name == 'bool'

  @property
  def as_numpy_dtype(self):
    return getattr(_np, self.name) if self.name != 'bool' else _np.bool_

  @property
  def base_dtype(self):
    return self

  def is_compatible_with(self, o):
    return self == as_dtype(o)

  @property
  def real_dtype(self):
    return self

  @property
  def min(self):
    return _np.iinfo(self.as_numpy_dtype).min

  @property
  def max(self):
    return _np.iinfo(self.as_numpy_dtype).max

  def __eq__(self, o):
    if o is None:
      return False
    try:
      return self.name == as_dtype(o).name
    except TypeError:
      return False

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return 'tf.' + self.name


_DT = {n: DType(n, n.startswith('int') or n.startswith('uint')) for n in
       ('float16', 'float32', 'float64', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
        'uint32', 'uint64', 'bool', 'complex64', 'complex128', 'string')}
float16, float32, float64 = _DT['float16'], _DT['float32'], _DT['float64']
int8, int16, int32, int64, uint8 = _DT['int8'], _DT['int16'], _DT['int32'], _DT['int64'], _DT['uint8']
bool = _DT['bool']
complex64, complex128, string = _DT['complex64'], _DT['complex128'], _DT['string']
double, half = float64, float16


def as_dtype(d):
  if isinstance(d, DType):
    return d
  if isinstance(d, str) and d in _DT:
    return _DT[d]
  if d is builtins.float:
    return float32
  if d is builtins.int:
    return int32
  if d is builtins.bool:
    return bool
  try:
    n = _np.dtype(d).name
  except Exception:
    raise TypeError('not a dtype: %r' % (d,))
  if n in _DT:
    return _DT[n]
  raise TypeError('not a dtype: %r' % (d,))


dtypes = types.SimpleNamespace(DType=DType, as_dtype=as_dtype)


# -- shapes -------------------------------------------------------------------
class TensorShape(object):

  def __new__(cls, dims=None):
    from t3v import seq
    return object.__new__((cls is TensorShape and seq.shape_class(dims)) or cls)

  def __init__(self, dims):
    if isinstance(dims, TensorShape):
      self._dims = dims._dims
    elif dims is None:
      self._dims = None
    elif isinstance(dims, Tensor):
      self._dims = tuple(_nn(x) for x in dims._known_list())
    elif num.is_number(dims):
      self._dims = (_nn(Num.of(dims)),)
    else:
      out = []
      for x in dims:
        if isinstance(x, Tensor):
          raise TypeError('Dimension value must be integer or None, got a tensor')
        if x is None:
          out.append(None)
        else:
          if isinstance(x, (builtins.float, _np.floating)) and x != builtins.int(x):
            raise TypeError('dimension %r is not an integer' % (x,))
          out.append(_nn(Num.of(x)))
      self._dims = tuple(out)

  @property
  def rank(self):
    return None if self._dims is None else builtins.len(self._dims)
  ndims = rank

  @property
  def dims(self):
    return None if self._dims is None else list(self._dims)

  def as_list(self):
    if self._dims is None:
      raise ValueError('as_list() is not defined on an unknown TensorShape.')
    return list(self._dims)

  def is_fully_defined(self):
    return self._dims is not None and all(d is not None for d in self._dims)

  def num_elements(self):
    return _nn(prod(Num.of(d) for d in self._dims)) if self.is_fully_defined() else None

  def __len__(self):
    if self._dims is None:
      raise ValueError('Cannot take the length of shape with unknown rank.')
    return builtins.len(self._dims)

  def __iter__(self):
    if self._dims is None:
      raise ValueError('Cannot iterate over a shape with unknown rank.')
    return iter(self._dims)

  def __getitem__(self, i):
    if self._dims is None:
      return None
    if isinstance(i, slice):
      return TensorShape(self._dims[i])
    return self._dims[i]

  def concatenate(self, o):
    o = TensorShape(o)
    if o._dims is None and self._dims is not None:
      return o.__radd__(self)
    return TensorShape(self._dims + o._dims)

  def __add__(self, o):
    return self.concatenate(o)

  def __eq__(self, o):
    try:
      o = TensorShape(o)
    except TypeError:
      return NotImplemented
    if self._dims is None or o._dims is None:
      return self._dims == o._dims
    if builtins.len(self._dims) != builtins.len(o._dims):
      return False
    return all((a is None and b is None) or (a is not None and b is not None and a == b)
               for a, b in zip(self._dims, o._dims))

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self._dims)

  def is_compatible_with(self, o):
    o = TensorShape(o)
    return builtins.len(self) == builtins.len(o) and \
        all(a is None or b is None or a == b for a, b in zip(self._dims, o._dims))

  def assert_is_compatible_with(self, o):
    if not self.is_compatible_with(o):
      raise ValueError('Shapes %s and %s are incompatible' % (self, o))

  def with_rank(self, r):
    if builtins.len(self) != r:
      raise ValueError('Shape %s must have rank %s' % (self, r))
    return self

  def __bool__(self):
    return self._dims is not None

  def __repr__(self):
    return 'TensorShape(%s)' % (list(self._dims) if self._dims is not None else None)

  def __str__(self):
    return '(%s)' % ', '.join(builtins.str(d) for d in self._dims)


# -- tensors ------------------------------------------------------------------
# While a graph is built, sizes for which hide(size) is true are unknown.
GRAPH = {'hide': None}


def unknown(x):
  """Whether x is a tensor whose value is unknown while the graph is built."""
  if GRAPH['hide'] is None or not isinstance(x, Tensor):
    return False
  k = known_values(x)
  return k is None or any(GRAPH['hide'](Num.of(v)) for v in k.flat)


class Tensor(object):
  __array_priority__ = 200

  def __init__(self, t=None, dtype=float32, known=None):
    assert t is not None or known is not None
    self._t = t
    self._dtype = dtype
    self._known = known  # np object array of Num, for integer/shape data

  @property
  def T_(self):
    if self._t is None:
      self._t = from_array(self._known)
    return self._t

  @property
  def dtype(self):
    return self._dtype

  @property
  def shape_(self):
    """The sizes at run time."""
    if self._known is not None:
      return TensorShape(self._known.shape)
    return TensorShape([_nn(s) for s in self._t.sizes()])

  @property
  def shape(self):
    """The sizes known when the graph is built."""
    if GRAPH['hide'] is None:
      return self.shape_
    return TensorShape([None if GRAPH['hide'](Num.of(s)) else s for s in self.shape_])

  def get_shape(self):
    return self.shape

  @property
  def ndim(self):
    return builtins.len(self.shape)

  def set_shape(self, s):
    if not self.shape.is_compatible_with(s):
      raise ValueError('incompatible shape')

  @property
  def name(self):
    return 'scope/core:0'

  @property
  def op(self):
    return self

  @property
  def graph(self):
    return None

  @property
  def device(self):
    return ''

  def _known_list(self):
    k = self._known if self._known is not None else known_values(self)
    if k is None:
      raise Unsupported('the value of a symbolic tensor is used as data')
    return list(k)

  def numpy(self):
    k = known_values(self)
    if k is None:
      raise Unsupported('numpy() of a symbolic tensor')
    return k if k.shape else _nn(k[()])

  def eval(self, *a, **k):
    return self.numpy()

  def __array__(self, *a, **k):
    raise Unsupported('numpy conversion of a symbolic tensor')

  def __len__(self):
    s = self.shape_
    if builtins.len(s) == 0:
      raise TypeError('Scalar tensor has no len()')
    return builtins.int(Num.of(s[0]))

  def __iter__(self):
    s = self.shape_
    if builtins.len(s) == 0:
      raise TypeError('Cannot iterate over a scalar tensor.')
    for i in range_(builtins.int(Num.of(s[0]))):
      yield self[i]

  def __bool__(self):
    k = known_values(self)
    if k is None or k.shape != ():
      raise Unsupported('truth value of a symbolic tensor')
    if unknown(self):
      raise Unsupported('truth value of a tensor while the graph is built')
    return _bool(Num.of(k[()]))

  def __index__(self):
    if unknown(self):
      raise TypeError('a tensor used as an index while the graph is built')
    k = known_values(self)
    if k is None or k.shape != ():
      raise Unsupported('a symbolic tensor used as an index')
    return builtins.int(k[()])
  __int__ = __index__

  def __float__(self):
    if unknown(self):
      raise TypeError('a tensor used as a number while the graph is built')
    k = known_values(self)
    if k is None or k.shape != ():
      raise Unsupported('a symbolic tensor used as a number')
    return builtins.float(k[()])

  def __hash__(self):
    return id(self)

  def __getitem__(self, spec):
    return getitem(self, spec)

  def __repr__(self):
    return '<symbolic tensor %s %s>' % (self.shape, self.dtype)

  # arithmetic
  def __add__(self, o):
    return add(self, o)

  def __radd__(self, o):
    return add(o, self)

  def __sub__(self, o):
    return subtract(self, o)

  def __rsub__(self, o):
    return subtract(o, self)

  def __mul__(self, o):
    if _is_tt(o):
      return NotImplemented
    return multiply(self, o)

  def __rmul__(self, o):
    return multiply(o, self)

  def __truediv__(self, o):
    return divide(self, o)

  def __rtruediv__(self, o):
    return divide(o, self)

  def __floordiv__(self, o):
    return floordiv(self, o)

  def __rfloordiv__(self, o):
    return floordiv(o, self)

  def __mod__(self, o):
    return floormod(self, o)

  def __rmod__(self, o):
    return floormod(o, self)

  def __pow__(self, o):
    return pow(self, o)

  def __rpow__(self, o):
    return pow(o, self)

  def __neg__(self):
    return negative(self)

  def __abs__(self):
    return abs(self)

  def __matmul__(self, o):
    return matmul(self, o)

  def __rmatmul__(self, o):
    return matmul(o, self)

  def __eq__(self, o):
    if o is None:
      return False
    return equal(self, o)

  def __ne__(self, o):
    if o is None:
      return True
    return not_equal(self, o)

  def __lt__(self, o):
    return less(self, o)

  def __le__(self, o):
    return less_equal(self, o)

  def __gt__(self, o):
    return greater(self, o)

  def __ge__(self, o):
    return greater_equal(self, o)


range_ = builtins.range


def _is_tt(o):
  return hasattr(o, 'tt_cores')


class Opaque(object):
  """A data-dependent value about which nothing is known."""

  def __init__(self, dtype, op=None, x=None, y=None):
    self.dtype, self.op, self.x, self.y = dtype, op, x, y

  def __bool__(self):
    raise Unsupported('branch on the value of a symbolic tensor')


class Variable(Tensor):

  def __init__(self, initial_value=None, trainable=True, name=None, dtype=None, **k):
    x = initial_value() if callable(initial_value) else initial_value
    x = convert_to_tensor(x, dtype=dtype)
    Tensor.__init__(self, x._t, x.dtype, x._known)
    self.trainable = trainable
    self._name = name or 'Variable'

  @property
  def name(self):
    return self._name + ':0'

  def assign(self, value, **k):
    v = convert_to_tensor(value, dtype=self.dtype)
    if not (v.shape_ == self.shape_):
      raise ValueError('Shapes %s and %s are incompatible' % (self.shape, v.shape))
    self._t, self._known = v._t, v._known
    return self

  def assign_add(self, value, **k):
    return self.assign(self.value() + value)

  def assign_sub(self, value, **k):
    return self.assign(self.value() - value)

  def value(self):
    return Tensor(self._t, self._dtype, self._known)

  def read_value(self):
    return self.value()

  @property
  def op(self):
    return self

  @property
  def initializer(self):
    return None


class SparseTensor(object):

  def __init__(self, indices, values, dense_shape):
    from t3v import seq
    self.indices = convert_to_tensor(indices, dtype=int64)
    self.values = convert_to_tensor(values)
    self.dense_shape = dense_shape if seq.is_seq(dense_shape) else convert_to_tensor(dense_shape, dtype=int64)

  @property
  def dtype(self):
    return self.values.dtype

  @property
  def shape(self):
    from t3v import seq
    if seq.is_seq(self.dense_shape):
      return TensorShape(self.dense_shape)
    return TensorShape(self.dense_shape._known_list())

  def get_shape(self):
    return self.shape


def from_array(arr):
  """T of a constant array of Nums."""
  arr = _np.asarray(arr, dtype=object) if not isinstance(arr, _np.ndarray) else arr
  axes = []
  for n in arr.shape:
    if n == 0:
      raise Unsupported('empty tensor')
    axes.append(() if n == 1 else (Sum([()] * n),))
  pieces = {}
  for idx in itertools.product(*[range_(n) for n in arr.shape]):
    v = Num.of(arr[idx])
    if v.is_zero():
      continue
    ch = tuple((i,) if arr.shape[k] > 1 else () for k, i in enumerate(idx))
    pieces[ch] = (tuple(() for _ in idx), [(v, ())])
  return T(axes, pieces)


def known_values(x):
  """np object array of the constant value of a tensor, or None."""
  if x._known is not None:
    return x._known
  t = x._t
  dims = []
  for a in t.axes:
    s = axis_size(a)
    if not s.is_const():
      return None
    dims.append(builtins.int(s.const_value()))
  if prod(Num.of(d) for d in dims) > 64:
    return None
  out = _np.empty(tuple(dims), dtype=object)
  for idx in itertools.product(*[range_(n) for n in dims]):
    r = t
    ok = True
    for i in idx:
      r = X.index(r, 0, Num.of(i))
    p = r.pieces.get(())
    if p is None:
      out[idx] = Num.const(0)
    elif builtins.len(p[1]) == 1 and not p[1][0][1]:
      out[idx] = p[1][0][0]
    else:
      return None
  return out


def _np_obj(x):
  a = _np.empty(_np.shape(x) if not isinstance(x, Num) else (), dtype=object)
  return a


def _guess_dtype(x):
  if isinstance(x, Tensor):
    return x.dtype
  if isinstance(x, (_np.ndarray, _np.generic)) and x.dtype != object:
    return as_dtype(x.dtype)
  if isinstance(x, _bool):
    return bool
  if isinstance(x, Num):
    return int32 if _num_is_int(x) else float32
  if isinstance(x, builtins.int):
    return int32
  if isinstance(x, (builtins.float, Fraction)):
    return float32
  if isinstance(x, _np.ndarray):
    items = list(x.flat)
    if all(isinstance(i, (builtins.int, _np.integer)) or (isinstance(i, Num) and _num_is_int(i)) for i in items):
      return int64
    return float64
  if isinstance(x, (list, tuple)):
    ds = [_guess_dtype(i) for i in x]
    for d in ds:
      if d.is_floating:
        return d
    return ds[0] if ds else float32
  if isinstance(x, TensorShape):
    return int32
  return float32


def _num_is_int(x):
  return all(c.denominator == 1 for c in x.t.values()) and \
      all(e.denominator == 1 and e >= 0 and not (isinstance(b, str) and b.startswith('$'))
          for m in x.t for b, e in m)


def convert_to_tensor(value, dtype=None, name=None, dtype_hint=None, preferred_dtype=None):
  if dtype is not None:
    dtype = as_dtype(dtype)
  if isinstance(value, Variable):
    value = value.value()
  if isinstance(value, Tensor):
    if dtype is not None and value.dtype != dtype:
      raise ValueError('Tensor conversion requested dtype %s for Tensor with dtype %s' %
                       (dtype, value.dtype))
    return value
  if isinstance(value, SparseTensor) or _is_tt(value):
    raise TypeError('cannot convert %r to a tensor' % (type(value),))
  if isinstance(value, TensorShape):
    return Tensor(known=_arr([Num.of(v) for v in value]), dtype=dtype or int32)
  if value is None or isinstance(value, str):
    raise ValueError('cannot convert %r to a tensor' % (value,))
  if isinstance(value, (list, tuple)) and _has_tensor(value):
    return stack([convert_to_tensor(v, dtype=dtype) for v in value], axis=0)
  dt = dtype or _guess_dtype(value)
  if num.is_number(value) or isinstance(value, (_bool, _np.bool_)):
    a = _np.empty((), dtype=object)
    a[()] = Num.of(value)
    return Tensor(known=a, dtype=dt)
  if isinstance(value, (list, tuple)):
    a = _nested(value)
  elif isinstance(value, _np.ndarray):
    a = _np.empty(value.shape, dtype=object)
    for i in itertools.product(*[range_(n) for n in value.shape]):
      a[i] = Num.of(value[i])
  elif hasattr(value, '__iter__'):
    a = _nested(list(value))
  else:
    raise TypeError('cannot convert %r to a tensor' % (type(value),))
  return Tensor(known=a, dtype=dt)


def _arr(xs):
  a = _np.empty((builtins.len(xs),), dtype=object)
  for i, x in enumerate(xs):
    a[i] = x
  return a


def _nested(v):
  if isinstance(v, (list, tuple, _np.ndarray, TensorShape)) and not (isinstance(v, _np.ndarray) and v.shape == ()):
    items = [_nested(i) for i in v]
    if not items:
      return _np.empty((0,), dtype=object)
    sh = items[0].shape
    if any(i.shape != sh for i in items):
      raise ValueError("Can't convert non-rectangular Python sequence to Tensor.")
    a = _np.empty((builtins.len(items),) + sh, dtype=object)
    for k, i in enumerate(items):
      a[k] = i if sh else i[()]
    return a
  a = _np.empty((), dtype=object)
  a[()] = Num.of(v)
  return a


def _has_tensor(v):
  if isinstance(v, Tensor):
    return True
  if isinstance(v, (list, tuple)):
    return any(_has_tensor(i) for i in v)
  return False


def constant(value, dtype=None, shape=None, name=None):
  x = convert_to_tensor(value, dtype=dtype)
  if shape is not None:
    return reshape(broadcast_to(x, shape), shape) if builtins.len(x.shape) == 0 else reshape(x, shape)
  return x


def _dims(shape):
  """List of Nums (or -1) from any shape-like."""
  if isinstance(shape, TensorShape):
    if not shape.is_fully_defined():
      raise ValueError('Cannot convert a partially known TensorShape to a Tensor.')
    return [Num.of(d) for d in shape]
  if isinstance(shape, Tensor):
    k = known_values(shape)
    if k is None:
      raise Unsupported('shape given by a symbolic tensor')
    return [Num.of(v) for v in k.flat] if k.shape else [Num.of(k[()])]
  if num.is_number(shape):
    return [Num.of(shape)]
  out = []
  for d in shape:
    if d is None:
      raise ValueError('None values not supported.')
    if isinstance(d, Tensor):
      k = known_values(d)
      if k is None:
        raise Unsupported('shape given by a symbolic tensor')
      d = k[()] if k.shape == () else k.flat[0]
    if isinstance(d, (builtins.float, _np.floating)):
      raise TypeError('a float in a shape')
    d = Num.of(d)
    out.append(d)
  return out


def _int(x):
  """Concrete python int from anything int-like."""
  if isinstance(x, Tensor):
    return x.__index__()
  return builtins.int(x) if not isinstance(x, Num) else x.__index__()


def _axis(a, rank):
  a = _int(a)
  if a < -rank or a >= rank:
    raise InvalidArgument('axis %d out of range for rank %d' % (a, rank))
  return a % rank if rank else 0


def _axes(a, rank):
  if a is None:
    return list(range_(rank))
  if isinstance(a, (list, tuple, _np.ndarray, Tensor)) and not num.is_number(a):
    if isinstance(a, Tensor) and builtins.len(a.shape) == 0:
      return [_axis(a, rank)]
    return [_axis(i, rank) for i in a]
  return [_axis(a, rank)]


def _wrap(t, like=None, dtype=None):
  return Tensor(t, dtype or (like.dtype if like is not None else float32))


def _pairprep(a, b):
  """Convert operands of a binary op the way TF does."""
  if isinstance(a, Tensor) and not isinstance(b, Tensor):
    if hasattr(b, 'dtype') and isinstance(b, (_np.ndarray, _np.generic)) and b.dtype != object and \
        as_dtype(b.dtype).is_floating and not a.dtype.is_floating:
      raise TypeError('cannot convert float to %s' % a.dtype)
    if a.dtype.is_integer and _guess_dtype(b).is_floating:
      raise TypeError('Cannot convert %r to an integer tensor' % (b,))
    return a, convert_to_tensor(b, dtype=a.dtype)
  if isinstance(b, Tensor) and not isinstance(a, Tensor):
    if b.dtype.is_integer and _guess_dtype(a).is_floating:
      raise TypeError('Cannot convert %r to an integer tensor' % (a,))
    return convert_to_tensor(a, dtype=b.dtype), b
  a, b = convert_to_tensor(a), convert_to_tensor(b)
  return a, b


def _same_dtype(*xs):
  for x in xs[1:]:
    if x.dtype != xs[0].dtype:
      raise InvalidArgument('cannot mix dtypes %s and %s' % (xs[0].dtype, x.dtype))


def _bin(a, b, fk, ft):
  a, b = _pairprep(a, b)
  _same_dtype(a, b)
  if a._known is not None and b._known is not None:
    try:
      x, y = _np.broadcast_arrays(a._known, b._known)
    except ValueError as e:
      raise InvalidArgument(builtins.str(e))
    out = _np.empty(x.shape, dtype=object)
    for i in itertools.product(*[range_(n) for n in x.shape]):
      out[i] = fk(Num.of(x[i]), Num.of(y[i]))
    return Tensor(known=out, dtype=a.dtype)
  return _wrap(ft(a.T_, b.T_), a)


def add(x, y, name=None):
  return _bin(x, y, lambda a, b: a + b, X.badd)


def subtract(x, y, name=None):
  return _bin(x, y, lambda a, b: a - b, lambda a, b: X.badd(a, X.scale(b, -1)))


def multiply(x, y, name=None):
  return _bin(x, y, lambda a, b: a * b, X.bmul)


def divide(x, y, name=None):
  return _bin(x, y, lambda a, b: a / b, _div)


truediv = divide


def divide_no_nan(x, y, name=None):
  raise Unsupported('divide_no_nan')


def _div(a, b):
  return X.bmul(a, X.reciprocal(b))


def negative(x, name=None):
  x = convert_to_tensor(x)
  return multiply(x, -1) if x.dtype.is_integer else multiply(x, -1.)


def floordiv(x, y, name=None):
  return _bin(x, y, lambda a, b: a // b, lambda a, b: _idx_divmod(a, b)[0])


def floormod(x, y, name=None):
  return _bin(x, y, lambda a, b: a % b, lambda a, b: _idx_divmod(a, b)[1])


mod = floormod


def _idx_divmod(a, b):
  """Division of an index expression by a constant stride."""
  ref = None
  k = [p for p in b.pieces.values()]
  a, b, axes = X.broadcast_pair(a, b)
  a = X.broadcast_to(a, axes)
  b = X.broadcast_to(b, axes)
  for i in range_(a.rank):
    r = X.unify(a.axes[i], b.axes[i])
    a, b = X.align(a, i, r), X.align(b, i, r)
  qp, rp = {}, {}
  for ch, (vs, terms) in a.pieces.items():
    bt = b.pieces.get(ch)
    if bt is None or builtins.len(bt[1]) != 1 or bt[1][0][1]:
      raise Unsupported('division of indices by a non-constant')
    d = bt[1][0][0]
    hi, lo = [], []
    bound = Num.const(0)
    for c, n in terms:
      q = c.exact_div(d)
      if q is not None and X._integral_or_zero(q):
        hi.append((q, n))
      else:
        rng = Num.const(1)
        for h, args in n:
          inf = E.S.info.get(h, {}).get('range')
          if inf is None:
            raise Unsupported('division of data without a known range')
          rng = rng * (inf - 1)
        if not n:
          rng = Num.const(1)
        bound = bound + c * rng
        lo.append((c, n))
    if lo and not num.known_le(bound + 1, d):
      raise Unsupported('remainder is not known to be below the divisor')
    if hi:
      qp[ch] = (vs, hi)
    if lo:
      rp[ch] = (vs, lo)
  return T(a.axes, qp), T(a.axes, rp)


def _cmp(x, y, f, op=None):
  a, b = _pairprep(x, y)
  ka, kb = known_values(a), known_values(b)
  if ka is None or kb is None:
    return Opaque(bool, op, a, b)
  u, v = _np.broadcast_arrays(ka, kb)
  out = _np.empty(u.shape, dtype=object)
  for i in itertools.product(*[range_(n) for n in u.shape]):
    out[i] = Num.of(builtins.int(f(Num.of(u[i]), Num.of(v[i]))))
  return Tensor(known=out, dtype=bool)


def equal(x, y, name=None):
  return _cmp(x, y, lambda a, b: a == b)


def not_equal(x, y, name=None):
  return _cmp(x, y, lambda a, b: a != b)


def less(x, y, name=None):
  return _cmp(x, y, lambda a, b: a < b)


def less_equal(x, y, name=None):
  return _cmp(x, y, lambda a, b: a <= b, '<=')


def greater(x, y, name=None):
  return _cmp(x, y, lambda a, b: a > b)


def greater_equal(x, y, name=None):
  return _cmp(x, y, lambda a, b: a >= b)


def _unary_known(x, f):
  out = _np.empty(x._known.shape, dtype=object)
  for i in itertools.product(*[range_(n) for n in x._known.shape]):
    out[i] = f(Num.of(x._known[i]))
  return Tensor(known=out, dtype=x.dtype)


def abs(x, name=None):
  x = convert_to_tensor(x)
  if x._known is not None:
    return _unary_known(x, builtins.abs)
  out = _wrap(X.abs_(x.T_), x)
  out.inside = x
  return out


def sign(x, name=None):
  x = convert_to_tensor(x)
  if x._known is not None:
    def f(c):
      if c.is_zero():
        return Num.const(0)
      return Num.const(1) if decide('<', -c) else Num.const(-1)
    return _unary_known(x, f)
  return _wrap(X.sign(x.T_), x)


def _need_float(x, what):
  if x.dtype.is_integer:
    raise InvalidArgument('%s of an integer tensor' % what)


def sqrt(x, name=None):
  x = convert_to_tensor(x)
  _need_float(x, 'sqrt')
  return _wrap(X.sqrt(x.T_), x)


def rsqrt(x, name=None):
  x = convert_to_tensor(x)
  _need_float(x, 'rsqrt')
  return _wrap(X.pow_(x.T_, Fraction(-1, 2)), x)


def reciprocal(x, name=None):
  x = convert_to_tensor(x)
  return _wrap(X.reciprocal(x.T_), x)


def square(x, name=None):
  x = convert_to_tensor(x)
  return multiply(x, x)


def exp(x, name=None):
  x = convert_to_tensor(x)
  _need_float(x, 'exp')
  return _wrap(X.exp(x.T_), x)


def log(x, name=None):
  x = convert_to_tensor(x)
  _need_float(x, 'log')
  return _wrap(X.log(x.T_), x)


def pow(x, y, name=None):
  if isinstance(x, Tensor) and not isinstance(y, Tensor):
    y = convert_to_tensor(y, dtype=x.dtype) if not (x.dtype.is_integer and _guess_dtype(y).is_floating) else \
        convert_to_tensor(y)
  x, y = _pairprep(x, y)
  _same_dtype(x, y)
  ky = known_values(y)
  if ky is None or ky.size != 1:
    raise Unsupported('power with a tensor exponent')
  p = ky.flat[0]
  t = x.T_
  r = X.pow_(t, p)
  for _ in range_(builtins.len(y.shape) - r.rank):
    r = X.expand(r, 0)
  return _wrap(r, x)


def _minmax(x, y, fn, tname):
  a, b = _pairprep(x, y)
  _same_dtype(a, b)
  ka, kb = known_values(a), known_values(b)
  if ka is not None and kb is not None:
    a2, b2 = Tensor(known=ka, dtype=a.dtype), Tensor(known=kb, dtype=b.dtype)
    return _bin(a2, b2, fn, None)
  if tname == 'max':
    if kb is not None and kb.size == 1:
      return _wrap(X.maximum(a.T_, kb.flat[0]), a)
    if ka is not None and ka.size == 1:
      return _wrap(X.maximum(b.T_, ka.flat[0]), a)
  raise Unsupported('%simum of symbolic tensors' % tname)


def maximum(x, y, name=None):
  return _minmax(x, y, num.nmax, 'max')


def minimum(x, y, name=None):
  return _minmax(x, y, num.nmin, 'min')


def cast(x, dtype, name=None):
  dtype = as_dtype(dtype)
  x = convert_to_tensor(x)
  if x.dtype == dtype:
    return x
  if dtype.is_integer and not (x.dtype.is_integer or x.dtype.is_bool):
    k = known_values(x)
    if k is None or not all(Num.of(v).is_const() and Num.of(v).const_value().denominator == 1 or
                            _num_is_int(Num.of(v)) for v in k.flat):
      raise Unsupported('truncating cast')
  return Tensor(x._t, dtype, x._known)


def identity(x, name=None):
  x = convert_to_tensor(x)
  return Tensor(x._t, x.dtype, x._known)


stop_gradient = identity


def to_float(x):
  return cast(x, float32)


# -- structure ----------------------------------------------------------------
def shape(input, out_type=int32, name=None):
  from t3v import seq
  x = convert_to_tensor(input)
  if seq.is_seq(x.shape):
    return x.shape.as_list()
  return Tensor(known=_arr([Num.of(d) for d in x.shape_]), dtype=as_dtype(out_type))


def rank(x, name=None):
  return convert_to_tensor(builtins.len(convert_to_tensor(x).shape), dtype=int32)


def size(x, out_type=int32, name=None):
  a = _np.empty((), dtype=object)
  a[()] = prod(Num.of(d) for d in convert_to_tensor(x).shape_)
  return Tensor(known=a, dtype=as_dtype(out_type))


def reshape(tensor, shape, name=None):
  from t3v import seq
  x = convert_to_tensor(tensor)
  if seq.is_seq(shape):
    return seq.spread(x, shape)
  dims = _dims(shape)
  if seq.Columns is not seq.Loose and isinstance(x, seq.Columns):
    return x.reshaped(dims)
  if isinstance(x, seq.Loose):
    return Tensor(X.reshape(x.base, dims), x.dtype)
  if x._known is not None and all(d.is_const() for d in dims):
    try:
      return Tensor(known=x._known.reshape([builtins.int(d) for d in dims]), dtype=x.dtype)
    except ValueError as e:
      raise InvalidArgument(builtins.str(e))
  return _wrap(X.reshape(x.T_, dims), x)


def transpose(a, perm=None, conjugate=False, name=None):
  x = convert_to_tensor(a)
  n = builtins.len(x.shape)
  if perm is None:
    p = list(range_(n))[::-1]
  else:
    p = [_int(i) for i in (perm if not isinstance(perm, Tensor) else perm._known_list())]
  p = [i % n if i < 0 else i for i in p]
  if sorted(p) != list(range_(n)):
    raise InvalidArgument('bad permutation %s for rank %d' % (p, n))
  if x._known is not None:
    return Tensor(known=x._known.transpose(p), dtype=x.dtype)
  return _wrap(X.permute(x.T_, p), x)


def matrix_transpose(a, name=None, conjugate=False):
  x = convert_to_tensor(a)
  n = builtins.len(x.shape)
  if n < 2:
    raise ValueError('matrix_transpose of rank %d' % n)
  return transpose(x, list(range_(n - 2)) + [n - 1, n - 2])


def expand_dims(input, axis=None, name=None, dim=None):
  x = convert_to_tensor(input)
  axis = dim if axis is None else axis
  n = builtins.len(x.shape)
  k = _int(axis)
  if k < -n - 1 or k > n:
    raise InvalidArgument('axis out of range')
  k = k % (n + 1)
  if x._known is not None:
    return Tensor(known=_np.expand_dims(x._known, k), dtype=x.dtype)
  return _wrap(X.expand(x.T_, k), x)


def squeeze(input, axis=None, name=None, squeeze_dims=None):
  x = convert_to_tensor(input)
  n = builtins.len(x.shape)
  t = x.T_
  sizes = t.sizes()
  if axis is None:
    ks = [k for k in range_(n) if decide('==', sizes[k] - 1)]
  else:
    ks = _axes(axis, n)
    for k in ks:
      if not decide('==', sizes[k] - 1):
        raise InvalidArgument('Can not squeeze dim[%d], expected a dimension of 1, got %s' % (k, sizes[k]))
  for k in sorted(set(ks), reverse=True):
    t = X.squeeze_axis(_unit(t, k), k)
  return _wrap(t, x)


def _unit(t, k):
  """The axis is known to have size one: drop its components."""
  if not t.axes[k]:
    return t
  return X.index_keep(t, k)


def _index_keep(t, k):
  r = X.index(t, k, Num.const(0))
  return X.expand(r, k)


X.index_keep = _index_keep


def concat(values, axis, name=None):
  if isinstance(values, Tensor):
    values = [values]
  dt = None
  for v in values:
    if isinstance(v, Tensor):
      dt = v.dtype
      break
  xs = [convert_to_tensor(v, dtype=dt if not isinstance(v, Tensor) else None) for v in values]
  _same_dtype(*xs)
  n = builtins.len(xs[0].shape)
  for x in xs:
    if builtins.len(x.shape) != n:
      raise InvalidArgument('concat: ranks differ')
  if n == 0:
    raise InvalidArgument('concat of scalars')
  k = _axis(axis, n)
  if all(x._known is not None for x in xs):
    return Tensor(known=_np.concatenate([x._known for x in xs], axis=k), dtype=xs[0].dtype)
  return _wrap(X.concat([x.T_ for x in xs], k), xs[0])


def stack(values, axis=0, name=None):
  dt = None
  for v in values:
    if isinstance(v, Tensor):
      dt = v.dtype
      break
  xs = [convert_to_tensor(v, dtype=dt if not isinstance(v, Tensor) else None) for v in values]
  _same_dtype(*xs)
  n = builtins.len(xs[0].shape)
  for x in xs:
    if builtins.len(x.shape) != n:
      raise InvalidArgument('stack: ranks differ')
  k = _axis(axis, n + 1)
  return concat([expand_dims(x, k) for x in xs], k)


def unstack(value, num=None, axis=0, name=None):
  x = convert_to_tensor(value)
  k = _axis(axis, builtins.len(x.shape))
  n = builtins.int(Num.of(x.shape_[k]))
  sel = [slice(None)] * builtins.len(x.shape)
  out = []
  for i in range_(n):
    s = list(sel)
    s[k] = i
    out.append(x[tuple(s)])
  return out


def split(value, num_or_size_splits, axis=0, num=None, name=None):
  x = convert_to_tensor(value)
  k = _axis(axis, builtins.len(x.shape))
  total = Num.of(x.shape_[k])
  if num_or_size_splits.__class__ in (builtins.int,) or isinstance(num_or_size_splits, (Num, _np.integer)):
    n = _int(num_or_size_splits)
    q = total.exact_div(n)
    if q is None or not X._integral(q):
      raise Unsupported('uneven split')
    sizes = [q] * n
  else:
    sizes = [Num.of(s) for s in _dims(num_or_size_splits)]
    neg = [i for i, s in enumerate(sizes) if s.same(-1)]
    if neg:
      rest = Num.const(0)
      for i, s in enumerate(sizes):
        if i != neg[0]:
          rest = rest + s
      sizes[neg[0]] = total - rest
    tot = Num.const(0)
    for s in sizes:
      tot = tot + s
    if not decide('==', tot - total):
      raise InvalidArgument('split sizes do not sum to the axis')
  out = []
  off = Num.const(0)
  for s in sizes:
    out.append(_wrap(X.slice_axis(x.T_, k, off, off + s, 1), x))
    off = off + s
  return out


def tile(input, multiples, name=None):
  x = convert_to_tensor(input)
  ms = _dims(multiples)
  t = x.T_
  if builtins.len(ms) != t.rank:
    raise InvalidArgument('tile: wrong number of multiples')
  for k, m in enumerate(ms):
    if m.same(1):
      continue
    t = _tile_axis(t, k, m)
  return _wrap(t, x)


def _tile_axis(t, k, m):
  if m.is_const() and m.const_value() < 1:
    raise Unsupported('empty tile')
  ax = (Atom(m),) + t.axes[k]
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    v = E.fresh(m)
    pieces[ch] = (vs[:k] + ((v,) + vs[k],) + vs[k + 1:], terms)
  return T(t.axes[:k] + (ax,) + t.axes[k + 1:], pieces)


def repeat(input, repeats, axis=None, name=None):
  x = convert_to_tensor(input)
  k = _axis(axis, builtins.len(x.shape))
  m = Num.of(_dims([repeats])[0])
  t = x.T_
  ax = t.axes[k] + (Atom(m),)
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    v = E.fresh(m)
    pieces[ch] = (vs[:k] + (vs[k] + (v,),) + vs[k + 1:], terms)
  return _wrap(T(t.axes[:k] + (ax,) + t.axes[k + 1:], pieces), x)


def broadcast_to(input, shape, name=None):
  x = convert_to_tensor(input)
  dims = _dims(shape)
  t = x.T_
  while t.rank < builtins.len(dims):
    t = X.expand(t, 0)
  axes = []
  for k, d in enumerate(dims):
    s = axis_size(t.axes[k])
    if s.same(d):
      axes.append(t.axes[k])
    elif s.same(1):
      axes.append(X.mk_axis(d))
    elif decide('==', s - d):
      axes.append(t.axes[k])
    else:
      raise InvalidArgument('cannot broadcast')
  return _wrap(X.broadcast_to(t, axes), x)


def zeros(shape, dtype=float32, name=None):
  return Tensor(X.fill(_dims(shape), 0), as_dtype(dtype))


def ones(shape, dtype=float32, name=None):
  return Tensor(X.fill(_dims(shape), 1), as_dtype(dtype))


def fill(dims, value, name=None):
  v = convert_to_tensor(value)
  return multiply(ones(dims, v.dtype), v)


def zeros_like(input, dtype=None, name=None, optimize=True):
  x = convert_to_tensor(input)
  return Tensor(T(x.T_.axes, {}), as_dtype(dtype) if dtype is not None else x.dtype)


def ones_like(input, dtype=None, name=None, optimize=True):
  x = convert_to_tensor(input)
  t = X.make(x.T_.axes, lambda ch, vs: [(E.ONE, ())])
  return Tensor(t, as_dtype(dtype) if dtype is not None else x.dtype)


def eye(num_rows, num_columns=None, batch_shape=None, dtype=float32, name=None):
  r = Num.of(_dims([num_rows])[0])
  if num_columns is not None and not decide('==', Num.of(_dims([num_columns])[0]) - r):
    raise Unsupported('rectangular eye')
  if batch_shape is not None:
    raise Unsupported('batched eye')
  return Tensor(X.eye(r), as_dtype(dtype))


def range(start, limit=None, delta=1, dtype=None, name=None):
  a, b = (0, start) if limit is None else (start, limit)
  return Tensor(known=_arr([Num.of(i) for i in range_(_int(a), _int(b), _int(delta))]),
                dtype=as_dtype(dtype) if dtype is not None else int32)


def pad(tensor, paddings, mode='CONSTANT', constant_values=0, name=None):
  x = convert_to_tensor(tensor)
  if mode.upper() != 'CONSTANT' or constant_values != 0:
    raise Unsupported('pad mode')
  if isinstance(paddings, Tensor):
    k = known_values(paddings)
    ps = [[Num.of(k[i, 0]), Num.of(k[i, 1])] for i in range_(k.shape[0])]
  else:
    ps = [[Num.of(_dims([p[0]])[0]), Num.of(_dims([p[1]])[0])] for p in paddings]
  for k, (lo, hi) in enumerate(ps):
    for where, n in ((0, lo), (1, hi)):
      if n.is_zero() or decide('==', n):
        continue
      sh = [Num.of(d) for d in x.shape_]
      sh[k] = n
      z = zeros(sh, x.dtype)
      x = concat([z, x] if where == 0 else [x, z], k)
  return x


def reverse(tensor, axis, name=None):
  x = convert_to_tensor(tensor)
  sel = [slice(None)] * builtins.len(x.shape)
  for k in _axes(axis, builtins.len(x.shape)):
    sel[k] = slice(None, None, -1)
  return x[tuple(sel)]


def getitem(x, spec):
  if isinstance(spec, list) and any(isinstance(s, slice) or s is None or s is Ellipsis for s in spec):
    spec = tuple(spec)
  if not isinstance(spec, tuple):
    spec = (spec,)
  n = builtins.len(x.shape)
  real = [s for s in spec if s is not None and s is not Ellipsis]
  if builtins.len(real) > n:
    raise IndexError('too many indices: %d for rank %d' % (builtins.len(real), n))
  full = []
  for s in spec:
    if s is Ellipsis:
      full.extend([slice(None)] * (n - builtins.len(real)))
    else:
      full.append(s)
  while builtins.sum(1 for s in full if s is not None) < n:
    full.append(slice(None))
  if x._known is not None and all(_plain(s) for s in full):
    r = x._known[tuple(_plain_index(s) for s in full)]
    if not isinstance(r, _np.ndarray):
      a = _np.empty((), dtype=object)
      a[()] = r
      r = a
    return Tensor(known=r, dtype=x.dtype)
  t = x.T_
  k = 0
  for s in full:
    if s is None:
      t = X.expand(t, k)
      k += 1
    elif isinstance(s, slice):
      size = axis_size(t.axes[k])
      step = 1 if s.step is None else _int(s.step)
      if step < 0:
        if s.start is not None or s.stop is not None or step != -1:
          raise Unsupported('negative stride')
        t = _reverse_axis(t, k)
        k += 1
        continue
      a = _bound(s.start, size, Num.const(0))
      b = _bound(s.stop, size, size)
      if not (a.is_zero() and b.same(size)) and not decide('<', a - b):
        # an axis without elements: nothing is stored for it
        t = T(t.axes[:k] + ((Atom(0),),) + t.axes[k + 1:], {})
        k += 1
        continue
      t = X.slice_axis(t, k, a, b, step)
      k += 1
    elif isinstance(s, Tensor) and builtins.len(s.shape) > 0:
      raise Unsupported('fancy indexing')
    elif isinstance(s, (list, _np.ndarray)):
      raise TypeError('Only integers, slices, ellipsis, newaxis are valid indices, got %r' % (s,))
    else:
      if isinstance(s, Tensor):
        kv = known_values(s)
        if kv is None:
          t = X.gather_T(t, k, s.T_)
          continue
        s = kv[()]
      if isinstance(s, (builtins.float, str)):
        raise TypeError('invalid index %r' % (s,))
      try:
        t = X.index(t, k, Num.of(s))
      except TypeError:
        raise TypeError('invalid index %r' % (s,))
  return _wrap(t, x)


def _plain(s):
  if s is None or isinstance(s, builtins.int):
    return True
  if isinstance(s, slice):
    return all(v is None or isinstance(v, builtins.int) or (isinstance(v, Num) and v.is_const()) or
               (isinstance(v, Tensor) and v._known is not None and v._known[()].is_const())
               for v in (s.start, s.stop, s.step))
  if isinstance(s, Num):
    return s.is_const()
  if isinstance(s, Tensor):
    return s._known is not None and s._known.shape == () and Num.of(s._known[()]).is_const()
  return isinstance(s, _np.integer)


def _plain_index(s):
  if isinstance(s, slice):
    f = lambda v: None if v is None else _int(v)
    return slice(f(s.start), f(s.stop), f(s.step))
  return None if s is None else _int(s)


def _bound(v, size, default):
  if v is None:
    return default
  v = Num.of(_dims([v])[0])
  if v.same(size):
    return v
  if decide('<', v):
    v = v + size
    if decide('<', v):
      v = Num.const(0)
  if v.same(size) or v.is_zero():
    return v
  if decide('<', size - v):
    return size
  return v


def _reverse_axis(t, k):
  ax = t.axes[k]
  if not ax:
    return t
  size = axis_size(ax)
  if builtins.len(ax) == 1 and isinstance(ax[0], Sum) and all(axis_size(p).same(1) for p in ax[0].parts):
    return X.take_parts(t, k, list(range_(builtins.len(ax[0].parts)))[::-1])
  if builtins.len(ax) != 1 or not isinstance(ax[0], Atom):
    raise Unsupported('reverse of a composite axis')
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    v = vs[k][0]
    w = E.fresh(size)
    m = {v: E.affine(w, size - 1, Num.const(-1))}
    pieces[ch] = (vs[:k] + ((w,),) + vs[k + 1:], [(c, E.subst_nodes(n, m)) for c, n in terms])
  return T(t.axes, pieces)


# -- gather -------------------------------------------------------------------
def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
  x = convert_to_tensor(params)
  i = convert_to_tensor(indices)
  if batch_dims:
    raise Unsupported('gather with batch_dims')
  k = 0 if axis is None else _axis(axis, builtins.len(x.shape))
  if i._known is not None:
    if i._known.shape == ():
      sel = [slice(None)] * builtins.len(x.shape)
      sel[k] = i._known[()]
      return x[tuple(sel)]
    if builtins.len(i._known.shape) == 1:
      sel = [slice(None)] * builtins.len(x.shape)
      out = []
      for v in i._known:
        s = list(sel)
        s[k] = v
        out.append(x[tuple(s)])
      return stack(out, axis=k)
    raise Unsupported('gather with a matrix of indices')
  if not i.dtype.is_integer:
    raise InvalidArgument('gather with float indices')
  return _wrap(X.gather_T(x.T_, k, i.T_), x)


def gather_nd(params, indices, batch_dims=0, name=None):
  x = convert_to_tensor(params)
  i = convert_to_tensor(indices)
  if batch_dims:
    raise Unsupported('gather_nd with batch_dims')
  n = builtins.int(Num.of(i.shape_[-1]))
  cols = [i[..., c] for c in range_(n)]
  t = x.T_
  return _wrap(X.gather_nd_T(t, [c.T_ for c in cols]), x)


# -- algebra ------------------------------------------------------------------
def einsum(equation, *inputs, **kwargs):
  xs = [convert_to_tensor(x) for x in inputs]
  _same_dtype(*xs)
  eq = equation.replace(' ', '')
  if '->' in eq:
    lhs, out = eq.split('->')
  else:
    lhs = eq
    cnt = {}
    for c in lhs.replace(',', ''):
      cnt[c] = cnt.get(c, 0) + 1
    out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
  ops = lhs.split(',')
  if builtins.len(ops) != builtins.len(xs):
    raise ValueError('einsum: %d operands for %r' % (builtins.len(xs), equation))
  if '...' in eq:
    ops, out = _ellipsis(ops, out, xs)
  ins = []
  for o, x in zip(ops, xs):
    if builtins.len(o) != builtins.len(x.shape):
      raise InvalidArgument('einsum: operand of rank %d for subscript %r' % (builtins.len(x.shape), o))
    ins.append(list(o))
  allin = set(c for o in ins for c in o)
  for c in out:
    if c not in allin:
      raise InvalidArgument('einsum: output label %r not in inputs' % c)
  if builtins.len(set(out)) != builtins.len(out):
    raise InvalidArgument('einsum: repeated output label')
  ts = []
  for o, x in zip(ins, xs):
    t = x.T_
    while builtins.len(set(o)) != builtins.len(o):
      d = [c for c in o if o.count(c) > 1][0]
      i, j = [p for p, c in enumerate(o) if c == d][:2]
      t = X.diagonal(t, i, j)
      del o[j]
    ts.append(t)
  return _wrap(X.contract(ins, ts, list(out)), xs[0])


def _ellipsis(ops, out, xs):
  n = 0
  new = []
  for o, x in zip(ops, xs):
    if '...' in o:
      k = builtins.len(x.shape) - builtins.len(o.replace('...', ''))
      n = builtins.max(n, k)
  letters = [chr(0x3b1 + i) for i in range_(n)]
  for o, x in zip(ops, xs):
    if '...' in o:
      k = builtins.len(x.shape) - builtins.len(o.replace('...', ''))
      if k != n:
        raise Unsupported('einsum ellipsis broadcasting')
      o = o.replace('...', ''.join(letters[n - k:]))
    new.append(o)
  return new, out.replace('...', ''.join(letters))


def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False,
           name=None, **kw):
  a, b = _pairprep(a, b)
  _same_dtype(a, b)
  if builtins.len(a.shape) < 2 or builtins.len(b.shape) < 2:
    raise InvalidArgument('matmul of tensors with rank below 2')
  ta, tb = a.T_, b.T_
  ra, rb = ta.rank, tb.rank
  if transpose_a or adjoint_a:
    ta = X.permute(ta, list(range_(ra - 2)) + [ra - 1, ra - 2])
  if transpose_b or adjoint_b:
    tb = X.permute(tb, list(range_(rb - 2)) + [rb - 1, rb - 2])
  return _wrap(_matmul(ta, tb), a)


def _matmul(ta, tb):
  nb = builtins.max(ta.rank, tb.rank) - 2
  while ta.rank - 2 < nb:
    ta = X.expand(ta, 0)
  while tb.rank - 2 < nb:
    tb = X.expand(tb, 0)
  la, lb, lo = [], [], []
  for k in range_(nb):
    sa, sb = axis_size(ta.axes[k]), axis_size(tb.axes[k])
    lo.append(('o', k))
    if sa.same(sb):
      la.append(('o', k)), lb.append(('o', k))
    elif sa.same(1):
      la.append(('a', k)), lb.append(('o', k))
    elif sb.same(1):
      la.append(('o', k)), lb.append(('b', k))
    elif decide('==', sa - sb):
      la.append(('o', k)), lb.append(('o', k))
    else:
      decide('==', sa - 1)
      decide('==', sb - 1)
      raise InvalidArgument('matmul: batch dimensions %s and %s' % (sa, sb))
  return X.contract([la + ['i', 'j'], lb + ['j', 'k']], [ta, tb], lo + ['i', 'k'])


def matvec(a, b, **kw):
  return squeeze(matmul(a, expand_dims(b, -1), **kw), axis=[-1])


def tensordot(a, b, axes, name=None):
  a, b = _pairprep(a, b)
  _same_dtype(a, b)
  ra, rb = builtins.len(a.shape), builtins.len(b.shape)
  if isinstance(axes, builtins.int):
    aa, ab = list(range_(ra - axes, ra)), list(range_(axes))
  else:
    f = lambda z: [z] if isinstance(z, builtins.int) else list(z)
    aa, ab = f(axes[0]), f(axes[1])
    aa, ab = [_axis(i, ra) for i in aa], [_axis(i, rb) for i in ab]
  la = [('a', i) for i in range_(ra)]
  lb = [('b', i) for i in range_(rb)]
  for i, j in zip(aa, ab):
    lb[j] = la[i]
  lo = [l for i, l in enumerate(la) if i not in aa] + [l for j, l in enumerate(lb) if j not in ab]
  return _wrap(X.contract([la, lb], [a.T_, b.T_], lo), a)


def add_n(inputs, name=None):
  if isinstance(inputs, Tensor):
    return inputs
  out = convert_to_tensor(inputs[0])
  for x in inputs[1:]:
    if not (out.shape_ == convert_to_tensor(x).shape_):
      raise InvalidArgument('add_n: shapes differ')
    out = add(out, x)
  return out


accumulate_n = add_n


def reduce_sum(input_tensor, axis=None, keepdims=False, name=None, keep_dims=None):
  x = convert_to_tensor(input_tensor)
  if keep_dims is not None:
    keepdims = keep_dims
  ks = _axes(axis, builtins.len(x.shape))
  t = X.reduce_sum(x.T_, ks)
  if keepdims:
    for k in sorted(ks):
      t = X.expand(t, k)
  return _wrap(t, x)


def reduce_mean(input_tensor, axis=None, keepdims=False, name=None):
  x = convert_to_tensor(input_tensor)
  ks = _axes(axis, builtins.len(x.shape))
  n = prod(Num.of(x.shape_[k]) for k in ks)
  return _wrap(X.scale(reduce_sum(x, axis, keepdims).T_, n ** -1), x)


def reduce_prod(input_tensor, axis=None, keepdims=False, name=None):
  x = convert_to_tensor(input_tensor)
  k = known_values(x)
  if k is None:
    raise Unsupported('reduce_prod of symbolic values')
  ks = _axes(axis, builtins.len(x.shape))
  r = _np.multiply.reduce(k, axis=tuple(ks), keepdims=keepdims) if k.ndim else k
  if not isinstance(r, _np.ndarray):
    a = _np.empty((), dtype=object)
    a[()] = r
    r = a
  return Tensor(known=r, dtype=x.dtype)


def _reduce_known(x, axis, f, what):
  x = convert_to_tensor(x)
  k = known_values(x)
  if k is None or axis is not None:
    raise Unsupported(what)
  a = _np.empty((), dtype=object)
  a[()] = f(*[Num.of(v) for v in k.flat])
  return Tensor(known=a, dtype=x.dtype)


def reduce_max(x, axis=None, **k):
  return _reduce_known(x, axis, num.nmax, 'reduce_max of symbolic values')


def reduce_min(x, axis=None, **k):
  return _reduce_known(x, axis, num.nmin, 'reduce_min of symbolic values')


def reduce_all(x, axis=None, **k):
  return _reduce_known(x, axis, lambda *v: Num.of(builtins.int(all(_bool(i) for i in v))), 'reduce_all')


def reduce_any(x, axis=None, **k):
  return _reduce_known(x, axis, lambda *v: Num.of(builtins.int(any(_bool(i) for i in v))), 'reduce_any')


def cumprod(x, axis=0, exclusive=False, reverse=False, name=None):
  x = convert_to_tensor(x)
  k = known_values(x)
  if k is None or k.ndim == 0:
    raise Unsupported('cumprod of symbolic values')
  if k.ndim > 1:
    ax = _axis(axis, k.ndim)
    out = _np.empty(k.shape, dtype=object)
    moved, omoved = _np.moveaxis(k, ax, 0), _np.moveaxis(out, ax, 0)
    for i in itertools.product(*[range_(n) for n in moved.shape[1:]]):
      col = cumprod(Tensor(known=_arr(list(moved[(slice(None),) + i])), dtype=x.dtype), 0, exclusive, reverse)
      for r_ in range_(moved.shape[0]):
        omoved[(r_,) + i] = col._known[r_]
    return Tensor(known=out, dtype=x.dtype)
  v = list(k)
  if reverse:
    v = v[::-1]
  out, acc = [], Num.const(1)
  for i in v:
    if exclusive:
      out.append(acc)
    acc = acc * i
    if not exclusive:
      out.append(acc)
  if reverse:
    out = out[::-1]
  return Tensor(known=_arr(out), dtype=x.dtype)


def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
  x = convert_to_tensor(x)
  k = known_values(x)
  if k is None or k.ndim != 1:
    raise Unsupported('cumsum of symbolic values')
  v = list(k)
  if reverse:
    v = v[::-1]
  out, acc = [], Num.const(0)
  for i in v:
    if exclusive:
      out.append(acc)
    acc = acc + i
    if not exclusive:
      out.append(acc)
  return Tensor(known=_arr(out[::-1] if reverse else out), dtype=x.dtype)


def norm_(tensor, ord='euclidean', axis=None, keepdims=None, name=None):
  x = convert_to_tensor(tensor)
  if ord not in ('euclidean', 'fro', 2):
    raise Unsupported('norm ord')
  if ord == 2 and axis is not None and not isinstance(axis, builtins.int):
    raise Unsupported('spectral norm')
  return sqrt(reduce_sum(multiply(x, x), axis, _bool(keepdims)))


def where(condition, x=None, y=None, name=None):
  c = convert_to_tensor(condition)
  k = known_values(c)
  if k is None or k.size != 1 or x is None:
    raise Unsupported('where')
  return convert_to_tensor(x if _bool(Num.of(k.flat[0])) else y)


def cond(pred, true_fn=None, false_fn=None, name=None):
  return true_fn() if _bool(convert_to_tensor(pred)) else false_fn()


def one_hot(*a, **k):
  raise Unsupported('one_hot')


def map_fn(*a, **k):
  raise Unsupported('map_fn')


# -- linear algebra -----------------------------------------------------------
def _diag(diagonal, name=None, **kw):
  x = convert_to_tensor(diagonal)
  t = x.T_
  n = axis_size(t.axes[-1])
  ax = t.axes[-1]
  if not ax:
    return _wrap(X.expand(t, t.rank), x)
  if builtins.len(ax) == 1 and isinstance(ax[0], Atom):
    pieces = {}
    for ch, (vs, terms) in t.pieces.items():
      w = E.fresh(n)
      v = vs[-1][0]
      pieces[ch + ((),)] = (vs + ((w,),), [(c, nd + ((E.DELTA, (v, w)),)) for c, nd in terms])
    return _wrap(T(t.axes + (ax,), pieces), x)
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    ws = tuple(E.fresh(E.S.vsize[v]) for v in vs[-1])
    d = tuple((E.DELTA, (v, w)) for v, w in zip(vs[-1], ws))
    pieces[ch + (ch[-1],)] = (vs + (ws,), [(c, nd + d) for c, nd in terms])
  return _wrap(T(t.axes + (ax,), pieces), x)


def _diag_part(input, name=None, **kw):
  x = convert_to_tensor(input)
  return _wrap(X.diagonal(x.T_, x.T_.rank - 2, x.T_.rank - 1), x)


def _trace(x, name=None):
  return reduce_sum(_diag_part(x), axis=-1)


def _rank2(x, what):
  if builtins.len(x.shape) < 2:
    raise InvalidArgument('%s of a tensor with rank below 2' % what)


def _qr(input, full_matrices=False, name=None):
  x = convert_to_tensor(input)
  _rank2(x, 'qr')
  if full_matrices:
    raise Unsupported('full qr')
  q, r = X.qr(x.T_)
  return _QR(_wrap(q, x), _wrap(r, x))


class _QR(tuple):
  def __new__(cls, q, r):
    s = tuple.__new__(cls, (q, r))
    s.q, s.r = q, r
    return s


def _svd(tensor, full_matrices=False, compute_uv=True, name=None):
  x = convert_to_tensor(tensor)
  _rank2(x, 'svd')
  if full_matrices:
    raise Unsupported('full svd')
  s, u, v = X.svd(x.T_)
  if not compute_uv:
    return _wrap(s, x)
  return _wrap(s, x), _wrap(u, x), _wrap(v, x)


def _inv(input, adjoint=False, name=None):
  x = convert_to_tensor(input)
  _rank2(x, 'inv')
  r = _wrap(X.inv(x.T_), x)
  return matrix_transpose(r) if adjoint else r


def _cholesky(input, name=None):
  x = convert_to_tensor(input)
  _rank2(x, 'cholesky')
  return _wrap(X.cholesky(x.T_), x)


def _det(input, name=None):
  x = convert_to_tensor(input)
  _rank2(x, 'det')
  return _wrap(X.det(x.T_), x)


def _unsup(what):
  def f(*a, **k):
    raise Unsupported(what)
  return f


linalg = types.SimpleNamespace(
    qr=_qr, svd=_svd, inv=_inv, cholesky=_cholesky, det=_det, diag=_diag, diag_part=_diag_part,
    tensor_diag=_diag, trace=_trace, matmul=matmul, matvec=matvec, einsum=einsum, eye=eye,
    matrix_transpose=matrix_transpose, transpose=matrix_transpose, adjoint=matrix_transpose,
    norm=norm_, tensordot=tensordot, set_diag=_unsup('set_diag'), solve=_unsup('solve'),
    slogdet=_unsup('slogdet'), logdet=_unsup('logdet'), lstsq=_unsup('lstsq'),
    triangular_solve=_unsup('triangular_solve'), eigh=_unsup('eigh'), pinv=_unsup('pinv'),
    expm=_unsup('expm'))
qr, svd, matrix_inverse, matrix_determinant, diag = _qr, _svd, _inv, _det, _diag
trace = _trace

math = types.SimpleNamespace(
    log=log, exp=exp, abs=abs, sign=sign, sqrt=sqrt, rsqrt=rsqrt, pow=pow, add=add,
    subtract=subtract, multiply=multiply, divide=divide, truediv=divide, add_n=add_n, square=square,
    maximum=maximum, minimum=minimum, reduce_sum=reduce_sum, reduce_mean=reduce_mean,
    reduce_prod=reduce_prod, cumprod=cumprod, cumsum=cumsum, negative=negative,
    reciprocal=reciprocal, floordiv=floordiv, floormod=floormod, mod=floormod,
    reduce_max=reduce_max, reduce_min=reduce_min, reduce_all=reduce_all, reduce_any=reduce_any,
    equal=equal, not_equal=not_equal, less=less, greater=greater, less_equal=less_equal,
    greater_equal=greater_equal, accumulate_n=add_n, conj=identity, real=identity,
    logical_and=_unsup('logical_and'), is_nan=_unsup('is_nan'), floor=_unsup('floor'),
    divide_no_nan=divide_no_nan)


# -- random -------------------------------------------------------------------
RANDOM = {'n': 0, 'log': []}


def _random_normal(shape, mean=0.0, stddev=1.0, dtype=float32, seed=None, name=None):
  dims = _dims(shape)
  RANDOM['n'] += 1
  head = ('rnd', RANDOM['n'])
  x = Tensor(X.atom(head, dims), as_dtype(dtype))
  from t3v import seq
  RANDOM['log'].append((head, dims, seq.A.open is not None))
  if not (num.is_number(stddev) and Num.of(stddev).same(1)):
    x = multiply(x, stddev if isinstance(stddev, Tensor) else convert_to_tensor(stddev, dtype=x.dtype))
  if not (num.is_number(mean) and Num.of(mean).same(0)):
    x = add(x, mean if isinstance(mean, Tensor) else convert_to_tensor(mean, dtype=x.dtype))
  return x


random = types.SimpleNamespace(normal=_random_normal, uniform=_unsup('random.uniform'),
                               set_seed=lambda s: None, truncated_normal=_unsup('truncated_normal'))
random_normal = _random_normal


# -- the rest -----------------------------------------------------------------
@contextlib.contextmanager
def name_scope(name=None, *a, **k):
  yield name


@contextlib.contextmanager
def control_dependencies(deps):
  yield


@contextlib.contextmanager
def device(d):
  yield


def no_op(name=None):
  return None


def group(*a, **k):
  return None


def assert_equal(x, y, message=None, **k):
  r = equal(x, y)
  if isinstance(r, Opaque):
    return
  if not all(_bool(Num.of(v)) for v in r._known.flat):
    raise InvalidArgument(message or 'assert_equal failed')


def _holds_le(x, y):
  """|z| <= y for z = 0 and y a sum of multiples of absolute values."""
  from t3v import symgrad
  z = getattr(x, 'inside', None)
  if z is None:
    return False
  z = symgrad.resolve(z.T_)
  if X.difference(z, X.scale(z, 0)) is not None:
    return False
  for _, terms in y.T_.pieces.values():
    for c, nodes in terms:
      c = Num.of(c)
      if not c.is_const() or c.const_value() < 0:
        return False
      if not all(h[0] == 'pw' and h[1][0] == 'abs' for h, _ in nodes):
        return False
  return True


def Assert(condition, data, **k):
  if isinstance(condition, Opaque):
    # A run-time check of data has to pass.
    if condition.op != '<=' or not _holds_le(condition.x, condition.y):
      raise Unsupported('a run-time assertion that is not known to hold')
    return
  if not _bool(convert_to_tensor(condition)):
    raise InvalidArgument('assertion failed')


def print_(*a, **k):
  return None


def function(f=None, **k):
  return f if f is not None else (lambda g: g)


def py_function(*a, **k):
  raise Unsupported('py_function')


def executing_eagerly():
  from t3v import symv1
  return symv1.STATE['eager']


def is_tensor(x):
  return isinstance(x, Tensor)


def get_static_value(x, partial=False):
  if unknown(x):
    return None
  k = known_values(x) if isinstance(x, Tensor) else None
  return None if k is None else (k if k.shape else _nn(k[()]))


class Module(object):
  def __init__(self, name=None):
    pass


class errors(object):
  InvalidArgumentError = InvalidArgument
  OpError = InvalidArgument


class _Logging(object):
  def __getattr__(self, n):
    return lambda *a, **k: None


logging = _Logging()

debugging = types.SimpleNamespace(
    assert_equal=assert_equal, Assert=Assert, assert_shapes=_unsup('assert_shapes'))

from t3v.symgrad import GradientTape, gradients  # noqa: E402

this = sys.modules[__name__]


def _setup():
  this.__dict__['norm'] = norm_
  this.__dict__['print'] = print_
  v1 = types.ModuleType('t3v.symtf.v1')
  v1.__dict__.update({k: v for k, v in this.__dict__.items() if not k.startswith('__')})
  from t3v import symv1
  symv1.install(v1, this)
  this.__dict__['compat'] = types.SimpleNamespace(v1=v1)
  this.__dict__['nn'] = types.SimpleNamespace(relu=_unsup('relu'))
  this.__dict__['keras'] = symv1.keras(this)
  this.__dict__['newaxis'] = None


_setup()
