"""Symbolic numbers: dimension polynomials and scalar coefficients.

A Num is a finite sum of generalised monomials  c * prod(base_i ** e_i)  with
rational c and rational e_i.  Bases are positive symbols: dimension symbols
(integers >= 1), positive real parameters, and nodes such as min(a, b).
Comparisons are decided by the current path context (see ctx.py): by normal
form, then by z3 under the path facts, and otherwise by forking the run.
"""
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
  """The engine cannot model this operation; nothing may be concluded."""


def _frac(x):
  if isinstance(x, Fraction):
    return x
  if isinstance(x, (bool, np.bool_)):
    return Fraction(int(x))
  if isinstance(x, (int, np.integer)):
    return Fraction(int(x))
  if isinstance(x, (float, np.floating)):
    if x != x or x in (float('inf'), float('-inf')):
      raise Unsupported('non-finite constant')
    # Decimal literals and quotients such as 1 / 3 denote the rational number.
    r = Fraction(float(x)).limit_denominator(10 ** 4)
    return r if float(r) == float(x) else Fraction(float(x))
  raise TypeError('not a number: %r' % (x,))


def is_number(x):
  return isinstance(x, (Num, int, float, Fraction, np.integer, np.floating))


CTX = None  # the active ctx.Context, set by ctx.py


class Num(object):
  __slots__ = ('t', '_key', 'real')
  __array_priority__ = 100

  def __init__(self, t):
    self.t = t
    self._key = None

  # -- construction ---------------------------------------------------------
  @staticmethod
  def const(x):
    f = _frac(x)
    return Num({(): f} if f else {})

  @staticmethod
  def sym(base):
    return Num({((base, Fraction(1)),): Fraction(1)})

  @staticmethod
  def of(x):
    if isinstance(x, Num):
      return x
    if isinstance(x, np.ndarray) and x.shape == ():
      return Num.of(x[()])
    return Num.const(x)

  # -- structure ------------------------------------------------------------
  @property
  def key(self):
    if self._key is None:
      self._key = tuple(sorted(self.t.items(), key=repr))
    return self._key

  def is_const(self):
    return not self.t or (len(self.t) == 1 and () in self.t)

  def const_value(self):
    return self.t.get((), Fraction(0))

  def is_zero(self):
    return not self.t

  def same(self, other):
    return self.key == Num.of(other).key

  def bases(self):
    out = set()
    for m in self.t:
      for b, _ in m:
        out.add(b)
    return out

  def is_monomial(self):
    return len(self.t) == 1

  # -- arithmetic -----------------------------------------------------------
  def _lin(self, o, sign):
    t = dict(self.t)
    for m, c in o.t.items():
      v = t.get(m, 0) + sign * c
      if v:
        t[m] = v
      else:
        t.pop(m, None)
    return Num(t)

  def _coerce(self, o):
    if isinstance(o, Num):
      return o
    try:
      return Num.of(o)
    except TypeError:
      return None

  def __add__(self, o):
    c = self._coerce(o)
    return self._array_op(o, lambda x: self + x) if c is None else self._lin(c, 1)
  __radd__ = __add__

  def __sub__(self, o):
    c = self._coerce(o)
    return self._array_op(o, lambda x: self - x) if c is None else self._lin(c, -1)

  def __rsub__(self, o):
    c = self._coerce(o)
    return self._array_op(o, lambda x: x - self) if c is None else c._lin(self, -1)

  def __neg__(self):
    return Num({m: -c for m, c in self.t.items()})

  def __pos__(self):
    return self

  def __abs__(self):
    if self >= 0:
      return self
    return -self

  def __mul__(self, o):
    c = self._coerce(o)
    if c is None:
      return self._array_op(o, lambda x: self * x)
    o = c
    t = {}
    for m1, c1 in self.t.items():
      for m2, c2 in o.t.items():
        m, f, extra = _fold(_mono_mul(m1, m2))
        if extra is not None:
          return self._mul_slow(o)
        v = t.get(m, 0) + c1 * c2 * f
        if v:
          t[m] = v
        else:
          t.pop(m, None)
    return Num(t)

  def _mul_slow(self, o):
    out = Num({})
    for m1, c1 in self.t.items():
      for m2, c2 in o.t.items():
        m, f, extra = _fold(_mono_mul(m1, m2))
        x = Num({m: c1 * c2 * f})
        out = out + (x if extra is None else x * extra)
    return out

  def _array_op(self, o, op):
    """Elementwise operation with a numpy array."""
    if not isinstance(o, np.ndarray):
      if type(o) is list and not self.is_const() and op(Num.const(1)).same(self):
        from t3v import cut
        return cut.repeat_(o, self)
      return NotImplemented
    from t3v import symnp
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
      out[i] = op(Num.of(o[i]))
    return out.view(symnp.SymArray)
  __rmul__ = __mul__

  def __truediv__(self, o):
    o = self._coerce(o)
    if o is None:
      return NotImplemented
    q = self.exact_div(o)
    if q is not None:
      return q
    return self * o ** -1

  def __rtruediv__(self, o):
    return Num.of(o) / self

  def exact_div(self, o):
    """self / o as a Num when the division is exact, else None."""
    o = Num.of(o)
    if o.is_zero():
      raise ZeroDivisionError
    if o.is_monomial():
      (m, c), = o.t.items()
      inv = tuple((b, -e) for b, e in m)
      return self * Num({inv: 1 / c})
    # Multivariate division by a polynomial with a fixed leading monomial.
    rem = dict(self.t)
    quo = {}
    lead = max(o.t, key=_mono_order)
    lc = o.t[lead]
    inv = tuple((b, -e) for b, e in lead)
    for _ in range(200):
      if not rem:
        return Num(quo)
      m = max(rem, key=_mono_order)
      q = _mono_mul(m, inv)
      if any(e < 0 for _, e in q):
        return None
      c = rem[m] / lc
      quo[q] = quo.get(q, 0) + c
      for k, v in o.t.items():
        kk = _mono_mul(k, q)
        w = rem.get(kk, 0) - c * v
        if w:
          rem[kk] = w
        else:
          rem.pop(kk, None)
    return None

  def __pow__(self, e):
    e = Num.of(e)
    if not e.is_const():
      from t3v import seq
      if seq.A.on:
        return seq.power(self, e)
      raise Unsupported('symbolic exponent')
    e = e.const_value()
    if e.denominator == 1 and e >= 0:
      out = Num.const(1)
      for _ in range(int(e)):
        out = out * self
      return out
    if self.is_zero():
      return self
    if self.is_monomial():
      (m, c), = self.t.items()
      m = tuple((b, x * e) for b, x in m)
      if c == 1:
        return Num({m: Fraction(1)}) * Num.const(1)
      if c > 0:
        return Num({m: Fraction(1)}) * _rat_pow(c, e)
      if e.denominator == 1:
        return Num({m: Fraction(c) ** int(e)})
    return Num.sym(('base', self.key)) ** e

  def __rpow__(self, o):
    from t3v import seq
    if seq.A.on:
      return Num.of(o) ** self
    raise Unsupported('symbolic exponent')

  def __floordiv__(self, o):
    o = Num.of(o)
    if o.same(1):
      return self
    q = self.exact_div(o)
    if q is not None and all(c.denominator == 1 and all(e >= 0 and e.denominator == 1 for _, e in m)
                             for m, c in q.t.items()):
      return q
    if self.is_const() and o.is_const():
      return Num.const(self.const_value() // o.const_value())
    if o.is_const() and CTX is not None:
      return CTX.floordiv(self, o)
    raise Unsupported('floor division %s // %s' % (self, o))

  def __rfloordiv__(self, o):
    return Num.of(o) // self

  def __mod__(self, o):
    return self - (self // o) * o

  def __rmod__(self, o):
    if isinstance(o, str):
      return NotImplemented
    return Num.of(o) % self

  # -- comparison (may fork the path) --------------------------------------
  def _cmp(self, o, op):
    if isinstance(o, (float, np.floating)) and o in (float('inf'), float('-inf')):
      lt = o > 0
      return {'==': False, '<': lt, '<=': lt}[op]
    o = self._coerce(o)
    if o is None:
      return NotImplemented
    return decide(op, self - o)

  def __eq__(self, o):
    if o is None or isinstance(o, str):
      return False
    return self._cmp(o, '==')

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  def __lt__(self, o):
    return self._cmp(o, '<')

  def __le__(self, o):
    return self._cmp(o, '<=')

  def __gt__(self, o):
    r = self._cmp(o, '<=')
    return r if r is NotImplemented else not r

  def __ge__(self, o):
    r = self._cmp(o, '<')
    return r if r is NotImplemented else not r

  def __hash__(self):
    return hash(self.key)

  def __bool__(self):
    return not decide('==', self)

  # -- concretisation -------------------------------------------------------
  def __index__(self):
    if self.is_const() and self.const_value().denominator == 1:
      return int(self.const_value())
    raise Unsupported('symbolic value %s used where a concrete integer is needed' % self)
  __int__ = __index__

  def __float__(self):
    if self.is_const():
      return float(self.const_value())
    raise Unsupported('symbolic value %s used where a concrete float is needed' % self)

  def __repr__(self):
    if not self.t:
      return '0'
    parts = []
    for m, c in sorted(self.t.items(), key=repr):
      fs = [] if c == 1 and m else [str(c)]
      for b, e in m:
        b = b if isinstance(b, str) else show_base(b)
        fs.append(b if e == 1 else '%s^%s' % (b, e))
      parts.append('*'.join(fs))
    return ' + '.join(parts)
  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)

  # numpy object-array helpers
  def sqrt(self):
    return self ** Fraction(1, 2)

  def conjugate(self):
    return self

  @property
  def size(self):
    return 1

  @property
  def shape(self):
    return ()

  def item(self):
    return self

  def astype(self, _):
    return self

  # -- evaluation -----------------------------------------------------------
  def eval(self, env):
    total = 0.0
    allint = True
    for m, c in self.t.items():
      v = Fraction(c)
      for b, e in m:
        bv = eval_base(b, env)
        if e.denominator == 1:
          v = v * (Fraction(bv) ** int(e) if isinstance(bv, (int, Fraction)) else float(bv) ** int(e))
        else:
          v = float(v) * float(bv) ** float(e)
      total = v + total if total != 0.0 else v
    if isinstance(total, Fraction) and total.denominator == 1:
      return int(total)
    return float(total)

  def subst(self, sub):
    """Replace symbol bases by Nums (recursively through min/floor nodes)."""
    if not sub:
      return self
    out = Num.const(0)
    for m, c in self.t.items():
      v = Num.const(c)
      for b, e in m:
        v = v * subst_base(b, sub) ** e
      out = out + v
    return out


def subst_base(b, sub):
  if isinstance(b, str):
    return sub.get(b, Num.sym(b))
  if b[0] == 'min':
    return nmin(*[Num(dict(k)).subst(sub) for k in b[1]])
  if b[0] == 'floor':
    x = Num(dict(b[1])).subst(sub)
    try:
      return x // b[2]
    except Unsupported:
      # outside of a path: the facts about the quotient follow when it is used
      return Num.sym(('floor', x.key, b[2]))
  if b[0] == 'base':
    x = Num(dict(b[1])).subst(sub)
    return x if not x.key == b[1] else Num.sym(b)
  return Num.sym(b)


def eval_base(b, env):
  if isinstance(b, str):
    return env[b]
  if b[0] == 'min':
    return min(Num(dict(k)).eval(env) for k in b[1])
  if b[0] == 'floor':
    return Num(dict(b[1])).eval(env) // b[2]
  if b[0] == 'base':
    return Num(dict(b[1])).eval(env)
  if b[0] == 'root':
    return b[1]
  raise KeyError(b)


def show_base(b):
  if b[0] == 'min':
    return 'min(%s)' % ', '.join(sorted(repr(Num(dict(k))) for k in b[1]))
  if b[0] == 'floor':
    return 'floor((%r)/%d)' % (Num(dict(b[1])), b[2])
  if b[0] == 'base':
    return '(%r)' % Num(dict(b[1]))
  if b[0] == 'root':
    return str(b[1])
  return repr(b)


def _mono_mul(m1, m2):
  if not m1:
    return m2
  if not m2:
    return m1
  d = dict(m1)
  for b, e in m2:
    v = d.get(b, 0) + e
    if v:
      d[b] = v
    else:
      d.pop(b, None)
  return tuple(sorted(d.items(), key=repr))


def _fold(m):
  """(monomial, rational factor, Num factor or None) with integral powers of
  rationals and of compound bases multiplied out."""
  for b, e in m:
    if isinstance(b, tuple) and (b[0] == 'root' or (b[0] == 'base' and e > 0)) and \
        (e.denominator == 1 or (b[0] == 'root' and not 0 < e < 1)):
      break
  else:
    return m, 1, None
  out, f, extra = [], Fraction(1), None
  for b, e in m:
    if isinstance(b, tuple) and b[0] == 'root':
      ip = e.numerator // e.denominator
      f = f * Fraction(b[1]) ** ip
      if e - ip:
        out.append((b, e - ip))
    elif isinstance(b, tuple) and b[0] == 'base' and e > 0 and e.denominator == 1:
      x = Num(dict(b[1])) ** e
      extra = x if extra is None else extra * x
    else:
      out.append((b, e))
  return tuple(out), f, extra


def _mono_order(m):
  return (sum(e for _, e in m), repr(m))


def _rat_pow(c, e):
  """c**e for positive rational c: prime-root normal form."""
  out = Num.const(1)
  for n, s in ((c.numerator, 1), (c.denominator, -1)):
    p = 2
    fs = {}
    if n > 10 ** 12:
      x = float(n) ** (1.0 / float(e.denominator))
      return Num.sym(('root', c)) ** e if abs(round(x) ** e.denominator - n) > 0 else \
          Num.const(Fraction(round(x)) ** int(e.numerator)) ** s
    while n > 1 and p * p <= n:
      while n % p == 0:
        fs[p] = fs.get(p, 0) + 1
        n //= p
      p += 1
    if n > 1:
      fs[n] = fs.get(n, 0) + 1
    for p, k in fs.items():
      x = e * k * s
      ip = x.numerator // x.denominator
      fp = x - ip
      out = out * Num.const(Fraction(p) ** ip)
      if fp:
        out = out * Num({((('root', p), fp),): Fraction(1)})
  return out


def decide(op, diff):
  """Truth of `diff op 0` on the current path."""
  if diff.is_const():
    c = diff.const_value()
    return {'==': c == 0, '<': c < 0, '<=': c <= 0}[op]
  if CTX is None:
    raise Unsupported('comparison outside a path context')
  return CTX.decide(op, diff)


INT32_MAX = 2 ** 31 - 1


def nmin(*xs):
  xs = [Num.of(x) for x in xs]
  # Sizes are assumed to fit the integer types the library stores them in.
  small = [x for x in xs if not (x.is_const() and x.const_value() >= INT32_MAX)]
  xs = small or xs
  flat = []
  for x in xs:
    if x.is_monomial():
      (m, c), = x.t.items()
      if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'min':
        flat.extend(Num(dict(k)) for k in m[0][0][1])
        continue
    flat.append(x)
  keep = []
  for x in flat:
    if any(x.same(y) for y in keep):
      continue
    keep.append(x)
  # Drop values known to be >= another one.
  i = 0
  while i < len(keep) and len(keep) > 1:
    x = keep[i]
    if any(y is not x and known_le(y, x) for y in keep):
      keep.pop(i)
    else:
      i += 1
  if len(keep) == 1:
    return keep[0]
  b = ('min', frozenset(k.key for k in keep))
  if CTX is not None and b in CTX.base_sub:
    return CTX.base_sub[b]
  return Num.sym(b)


def nmax(*xs):
  xs = [Num.of(x) for x in xs]
  best = xs[0]
  for x in xs[1:]:
    if x.same(best) or known_le(x, best):
      continue
    if known_le(best, x):
      best = x
      continue
    if decide('<', best - x):
      best = x
  return best


def known_le(a, b):
  d = a - b
  if d.is_const():
    return d.const_value() <= 0
  if CTX is None:
    return False
  return CTX.known('<=', d) is True


def concrete(x):
  """The integer value of x, or None if it is symbolic."""
  x = Num.of(x)
  return int(x.const_value()) if x.is_const() else None


def prod(xs):
  out = Num.const(1)
  for x in xs:
    out = out * x
  return out
