"""Sequences of symbolic length, for TT-objects with any number of cores.

The number of cores is a symbol d >= 3 and K stands for an arbitrary inner
position, 1 <= K <= d - 2.  A sequence (of cores, ranks, sizes) is piecewise:
ranges of positions with the element as a function of the position.  An element
computed at K stands for the elements at all inner positions; it is moved to
another position by replacing K in the sizes and the names of the inputs, which
is refused on paths that assume anything about position K.
"""
import builtins

from t3v import expr as E
from t3v import num
from t3v import tensor as X
from t3v.num import Num, Unsupported

D_, K_ = '#d', '#K'


class State(object):
  """The current run."""

  def __init__(self):
    self.on = False
    self.open = None       # the loop whose iteration for K is running
    self.odd = False       # the contract treats position K differently
    self.witness = None    # why K is not an arbitrary position any more
    self.cand = []         # loop invariants offered by the contract
    self.ghosts = []       # invariants that relate several variables
    self.fine = set()      # stems whose products of the first k also show the last factor
    self.tail = set()      # stems whose total is written with products of the last sizes
    self.limits = {}       # stem of ranks -> upper bound as a function of the position
    self.loops = 0         # number of loops so far
    self.record = None
    self.reg = {}          # symbol -> (maker, position)
    self.heads = {}        # head of an opaque tensor -> (maker, position)
    self.pows = {}         # symbol -> (base, exponent) of a symbolic power
    self.defs = {}         # (name, position key) -> value fixed during the run
    self.pre = 0


A = State()


def start(ctx, record):
  A.__init__()
  A.on = ctx.any = True
  A.record = record
  A.d = ctx.symbol(D_)
  ctx.require('<=', Num.const(3) - A.d)
  A.K = ctx.symbol(K_)
  ctx.require('<=', A.K - A.d + 2)
  A.pre = len(ctx.pre)
  return nn(A.d)


def stop():
  A.__init__()


def nn(x):
  from t3v import symtf
  return symtf._nn(x)


def symbolic(x):
  return isinstance(x, Num) and not x.is_const()


def known(op, diff):
  if diff.is_const():
    return num.decide(op, diff)
  return num.CTX.known(op, diff)


def need(op, diff):
  r = known(op, diff)
  if r is None:
    raise Unsupported('undecided: %s %s 0' % (diff, op))
  return r


# -- indexed symbols ----------------------------------------------------------
def sym(stem, i):
  """The size stem[i]; stem is a number when all sizes are equal to it."""
  if isinstance(stem, Seq):
    return Num.of(stem.get(i))
  if not isinstance(stem, str):
    return Num.of(stem)
  i = Num.of(i)
  name = '%s[%s]' % (stem, i)
  A.reg[name] = (lambda j: sym(stem, j), i)
  return num.CTX.symbol(name)


def rank(stem, i):
  """The rank stem[i]; the first and the last are one."""
  i = Num.of(i)
  if isinstance(stem, Seq):
    return Num.of(stem.get(i))
  if i.same(0) or i.same(A.d):
    return Num.const(1)
  if not isinstance(stem, str):
    return Num.of(stem)
  name = '%s[%s]' % (stem, i)
  A.reg[name] = (lambda j: rank(stem, j), i)
  x = num.CTX.symbol(name)
  if stem in A.limits and known('<=', 1 - i) and known('<=', i - A.d + 1):
    num.CTX.axiom('<=', x - Num.of(A.limits[stem](i)))
  return x


def ranks(stem):
  return Seq([Part(0, A.d, lambda i: nn(rank(stem, i)))])


def modes(stem):
  s = Seq([Part(0, A.d - 1, lambda i: nn(sym(stem, i)))])
  s.stem = stem
  return s


def pre_size(stem, k):
  """stem[0] * ... * stem[k - 1]."""
  if not isinstance(stem, str):
    if stem != 1:
      raise Unsupported('power')
    return Num.const(1)
  k = Num.of(k)
  if stem in A.tail and k.same(A.d):
    return suf_size(stem, 0)
  if k.same(A.K + 1) or k.same(A.d) or stem in A.fine and (k.same(A.K) or k.same(A.d - 1)):
    return pre_size(stem, k - 1) * sym(stem, k - 1)
  if k.same(0):
    return Num.const(1)
  if k.same(1):
    return sym(stem, 0)
  name = 'prod-%s[:%s]' % (stem, k)
  A.reg[name] = (lambda j: pre_size(stem, j), k)
  return num.CTX.symbol(name)


def suf_size(stem, k):
  """stem[k] * ... * stem[d - 1]."""
  if not isinstance(stem, str):
    if stem != 1:
      raise Unsupported('power')
    return Num.const(1)
  k = Num.of(k)
  if k.same(A.K) or k.same(0):
    return sym(stem, k) * suf_size(stem, k + 1)
  if k.same(A.d):
    return Num.const(1)
  if k.same(A.d - 1):
    return sym(stem, k)
  name = 'prod-%s[%s:]' % (stem, k)
  A.reg[name] = (lambda j: suf_size(stem, j), k)
  return num.CTX.symbol(name)


def bases(x):
  from t3v import ctx as C
  out = set()
  for m in x.t:
    out |= C._sym_bases(m)
  return out


def mentions_k(x):
  return any(b == K_ or (b in A.reg and K_ in bases(A.reg[b][1])) for b in bases(x))


def special_k(given=True):
  """Whether the path assumes anything about position K beyond its range;
  given: including what the contract says."""
  if A.witness or (A.odd and given):
    return True
  ctx = num.CTX
  for _, d, _ in ctx.assumptions + (ctx.pre[A.pre:] if given else []):
    if any('#K' in str(b) for b in bases(d)):
      return True
  return not A.K.same(Num.sym(K_)) or any('#K' in k for k in ctx.sub)


def subst_num(x, j):
  sub = {K_: j}
  for b in bases(x):
    if b in A.reg:
      maker, i = A.reg[b]
      i2 = i.subst({K_: j})
      if not i2.same(i):
        sub[b] = maker(i2)
  return x.subst(sub)


def move(v, j):
  """The value v, computed for position K, at position j."""
  j = Num.of(j)
  if j.same(A.K):
    return v
  if special_k():
    raise Unsupported('position K is distinguished on this path')
  return _move(v, j)


def _move(v, j):
  from t3v import symtf
  if isinstance(v, Num):
    return nn(subst_num(v, j))
  if isinstance(v, Blur):
    return Blur([n if n is None else nn(subst_num(Num.of(n), j)) for n in v.dims], v.dtype)
  if isinstance(v, Loose):
    raise Unsupported('value at another position')
  if isinstance(v, symtf.Tensor):
    if v._known is not None:
      import numpy as np
      out = np.empty(v._known.shape, dtype=object)
      for i in np.ndindex(*out.shape):
        out[i] = subst_num(Num.of(v._known[i]), j)
      return symtf.Tensor(known=out, dtype=v.dtype)
    try:
      return symtf.Tensor(_move_tensor(v.T_, j), v.dtype)
    except Unsupported:
      return Blur([nn(subst_num(Num.of(n), j)) for n in v.shape], v.dtype)
  if v is None or isinstance(v, (bool, int, float, str, symtf.DType)):
    return v
  if type(v) is symtf.TensorShape:
    return symtf.TensorShape([_move(x, j) for x in v])
  if isinstance(v, (list, tuple)):
    return type(v)(_move(x, j) for x in v)
  raise Unsupported('%s at another position' % type(v).__name__)


def _move_tensor(t, j):
  def axis(a):
    out = []
    for c in a:
      if isinstance(c, X.Atom):
        s = subst_num(c.size, j)
        if not s.same(1):
          out.append(X.Atom(s))
      else:
        out.append(X.Sum([axis(p) for p in c.parts]))
    return tuple(out)

  def arg(a, m):
    if isinstance(a, int):
      return m[a]
    if a[0] == 'j':
      parts = [(arg(x, m), subst_num(Num(dict(s)), j).key) for x, s in a[1]]
      parts = tuple(p for p in parts if p[0] is not None)
      return parts[0][0] if len(parts) == 1 else E.join(parts) if parts else None
    if a[0] == 'c' and not mentions_k(Num(dict(a[1]))):
      return a
    raise Unsupported('index at another position')
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    m = {}

    def ren(v):
      # opaque tensors have no arguments for axes of size one
      if v not in m:
        n = subst_num(E.S.vsize[v], j)
        m[v] = None if n.same(1) else E.fresh(n)
      return m[v]
    nvs = tuple(tuple(v for v in map(ren, g) if v is not None) for g in vs)
    nt = []
    for coef, nodes in terms:
      for v in sorted(E.term_vars(nodes)):
        ren(v)
      nn_ = []
      for h, args in nodes:
        if h in A.heads:
          maker, i = A.heads[h]
          h2 = maker(i.subst({K_: j}))
        elif h == E.DELTA or (h[0] in ('in', 'iv') and '#' not in str(h)):
          h2 = h
        else:
          raise Unsupported('derived value at another position')
        args = tuple(x for x in (arg(a, m) for a in args) if x is not None)
        if h2 == E.DELTA and len(args) < 2:
          if args:
            raise Unsupported('index at another position')
          continue
        nn_.append((h2, args))
      nt.append((subst_num(coef, j), tuple(nn_)))
    pieces[ch] = (nvs, nt)
  return X.T([axis(a) for a in t.axes], pieces)


# -- sequences ----------------------------------------------------------------
class Part(object):
  """Positions lo..hi (inclusive) with the element f(position)."""
  __slots__ = ('lo', 'hi', 'f')

  def __init__(self, lo, hi, f):
    self.lo, self.hi, self.f = Num.of(lo), Num.of(hi), f

  def moved(self, by):
    if Num.of(by).is_zero():
      return self
    f = self.f
    return Part(self.lo + by, self.hi + by, lambda i: f(Num.of(i) - by))


def one(pos, v):
  return Part(pos, pos, lambda i: v)


class Seq(object):
  """A list, tuple or one-dimensional array of symbolic length.

  off: position 0 of a slice in the sequence it was taken from; loops over the
  slice are cut at the positions of that sequence.
  """
  __array_priority__ = 400

  def __init__(self, parts, kind='list', off=0):
    self.parts = list(parts)
    self.kind = kind
    self.off = Num.of(off)
    self.version = 0
    self.stem = None       # the symbols stem[0..d-1]
    self.mark = None       # the loop in whose iteration for K this is changed
    self.added = []        # elements appended in that iteration
    self.written = []      # (position, value) stored in that iteration
    self.touched = None    # (loop, positions stored outside that iteration)
    self.slot = None       # invariant of the element handed to the next iteration
    self.past = None       # the elements that earlier iterations have stored

  @staticmethod
  def of(xs, kind='list'):
    return Seq([one(Num.const(i), x) for i, x in enumerate(xs)], kind)

  def copy(self, kind=None):
    if self.mark is not None:
      raise Unsupported('copy of a list under construction')
    s = Seq(self.parts, kind or self.kind, self.off)
    if kind == 'array' and self.kind != 'array':
      # the elements of arrays are numpy integers
      s = s.map(lambda v: Num.const(v) if type(v) is int else v)
    s.stem = self.stem
    return s

  def _size(self):
    return self.parts[-1].hi + 1 if self.parts else Num.const(0)

  def length(self):
    n = self._size()
    if self.mark is None:
      return n
    if n.is_const():
      # appended to in every iteration
      return n + self.mark.before() + len(self.added)
    return n

  def span(self):
    """First and last position in the numbering used to cut loops."""
    return self.off, self.off + self.length() - 1

  def at(self, pos):
    return self.get(Num.of(pos) - self.off)

  def map(self, fn, kind=None):
    if self.mark is not None:
      raise Unsupported('list under construction')
    return Seq([Part(p.lo, p.hi, (lambda g: lambda i: fn(g(i)))(p.f)) for p in self.parts],
               kind or self.kind, self.off)

  # access
  def pos(self, i):
    from t3v import symtf
    if isinstance(i, symtf.Tensor):
      k = symtf.known_values(i)
      if k is None:
        raise Unsupported('index')
      i = k.reshape(-1)[0]
    i = Num.of(i)
    if i.is_const() and i.const_value() < 0:
      i = self.length() + i
    return i

  def get(self, i):
    i = self.pos(i)
    if self.mark is not None:
      return self._get_marked(i)
    return self._get(i)

  def _get_marked(self, i):
    if self._size().is_const():
      n = self.length() - len(self.added)
      for k, v in enumerate(self.added):
        if i.same(n + k):
          return v
      raise Unsupported('element of a list under construction')
    for p, v in self.written:
      if need('==', p - i):
        return v
    # elements that earlier iterations have not stored to
    if not need('<=', (A.K - i) * self.mark.step):
      if self.past is not None:
        return nn(self.past(i))
      raise Unsupported('element stored by an earlier iteration')
    return self._get(i)

  def _get(self, i):
    cand = []
    for p in self.parts:
      a, b = known('<=', p.lo - i), known('<=', i - p.hi)
      if a and b:
        return p.f(i)
      if a is not False and b is not False:
        cand.append(p)
    if not cand:
      raise IndexError('list index out of range')
    wide = [p for p in cand if not p.lo.same(p.hi)]
    thin = [p for p in cand if p.lo.same(p.hi)]
    if len(wide) == 1:
      # one formula for all the possible positions
      w = wide[0]
      lo, hi = w.lo, w.hi
      for p in thin:
        try:
          if not equal(w.f(p.lo), p.f(p.lo)):
            continue
        except Unsupported:
          continue
        if p.lo.same(lo - 1):
          lo = p.lo
        if p.lo.same(hi + 1):
          hi = p.lo
      if known('<=', lo - i) and known('<=', i - hi):
        return w.f(i)
      b = blur(w, thin, i)
      if b is not None:
        return b
    for p in thin:
      if num.decide('==', i - p.lo):
        return p.f(p.lo)
    for w in wide:
      if num.decide('<=', w.lo - i) and num.decide('<=', i - w.hi):
        return w.f(i)
    raise IndexError('list index out of range')

  def __getitem__(self, i):
    if isinstance(i, slice):
      return self.slice(i)
    if isinstance(i, tuple):
      raise IndexError('too many indices')
    return self.get(i)

  def slice(self, s):
    if self.mark is not None:
      raise Unsupported('slice of a list under construction')
    if s.step is not None and not Num.of(s.step).same(1):
      if Num.of(s.step).same(-1) and s.start is None and s.stop is None:
        return self.reverse()
      raise Unsupported('slice step')
    n = self.length()
    lo = Num.const(0) if s.start is None else self.pos(s.start)
    hi = (n if s.stop is None else self.pos(s.stop)) - 1
    if not (need('<=', -lo) and need('<=', hi - n + 1)):
      raise Unsupported('slice bounds')
    out = []
    for p in self.parts:
      if need('<', p.hi - lo) or need('<', hi - p.lo):
        continue
      a = p.lo if need('<=', lo - p.lo) else lo
      b = p.hi if need('<=', p.hi - hi) else hi
      out.append(Part(a, b, p.f).moved(-lo))
    return Seq(out, self.kind, self.off + lo)

  def reverse(self):
    n = self.length()
    out = []
    for p in reversed(self.parts):
      out.append(Part(n - 1 - p.hi, n - 1 - p.lo, (lambda g: lambda i: g(n - 1 - Num.of(i)))(p.f)))
    return Seq(out, self.kind)

  # change
  def _touch(self):
    if self.kind == 'tuple':
      raise TypeError("'tuple' object does not support item assignment")
    if A.open is not None and self.mark is not A.open:
      raise Unsupported('a list made outside the loop is changed')
    self.version += 1
    self.stem = None

  def append(self, v):
    self._touch()
    if self.mark is not None:
      if not self._size().is_const():
        raise Unsupported('append')
      self.added.append(v)
    else:
      self.parts.append(one(self.length(), v))

  def extend(self, vs):
    if isinstance(vs, Seq):
      self._touch()
      if self.mark is not None:
        raise Unsupported('extend')
      n = self.length()
      self.parts += [p.moved(n) for p in vs.parts]
    else:
      for v in vs:
        self.append(v)

  def insert(self, i, v):
    self._touch()
    if self.mark is not None or not Num.of(i).same(0):
      raise Unsupported('insert')
    self.parts = [one(Num.const(0), v)] + [p.moved(1) for p in self.parts]

  def pop(self, *a):
    raise Unsupported('pop')
  remove = sort = clear = pop

  def __setitem__(self, i, v):
    if isinstance(i, (slice, tuple)):
      raise Unsupported('slice assignment')
    i = self.pos(i)
    self._touch()
    if self.mark is not None:
      if self._size().is_const():
        raise Unsupported('store to a list under construction')
      self.written = [(p, x) for p, x in self.written if not need('==', p - i)] + [(i, v)]
      return
    if self.touched is not None:
      self.touched[1].append(i)
    self.parts = store(self.parts, one(i, v))

  # list and array arithmetic
  def __add__(self, o):
    if self.kind == 'array':
      return self._zip(o, lambda a, b: a + b)
    if self.mark is not None:
      if isinstance(o, Seq) or not self._size().is_const():
        raise Unsupported('concatenation inside a loop')
      out = Seq(self.parts, self.kind)
      out.mark, out.added = self.mark, self.added + list(o)
      return out
    o = o if isinstance(o, Seq) else Seq.of(_items(o))
    n = self.length()
    return Seq(self.parts + [p.moved(n) for p in o.parts], self.kind)

  def __radd__(self, o):
    if self.kind == 'array':
      return self._zip(o, lambda a, b: b + a)
    return Seq.of(_items(o), self.kind) + self

  def _zip(self, o, fn):
    if isinstance(o, Seq):
      return zip_([self, o]).map(lambda ab: fn(*ab), 'array')
    if isinstance(o, (list, tuple)):
      raise Unsupported('array arithmetic')
    return self.map(lambda a: fn(a, o), 'array')

  def __mul__(self, o):
    if self.kind != 'array':
      raise Unsupported('repetition')
    return self._zip(o, lambda a, b: a * b)
  __rmul__ = __mul__

  def _arith(fn):
    def g(self, o):
      if self.kind != 'array' and not (isinstance(o, Seq) and o.kind == 'array'):
        raise TypeError('unsupported operand')
      return self._zip(o, fn)
    return g
  __pow__ = _arith(lambda a, b: a ** b)
  __sub__ = _arith(lambda a, b: a - b)
  __rsub__ = _arith(lambda a, b: b - a)
  __truediv__ = _arith(lambda a, b: a / b)
  __lt__ = _arith(lambda a, b: a < b)
  __le__ = _arith(lambda a, b: a <= b)
  __gt__ = _arith(lambda a, b: a > b)
  __ge__ = _arith(lambda a, b: a >= b)
  del _arith

  def __eq__(self, o):
    if self.kind == 'array' or (isinstance(o, Seq) and o.kind == 'array'):
      return self._zip(o, lambda a, b: a == b)
    return seq_eq(self, o) if isinstance(o, Seq) else False

  def __ne__(self, o):
    r = self.__eq__(o)
    return r.map(lambda b: not b) if isinstance(r, Seq) else not r

  __hash__ = object.__hash__

  def __iter__(self):
    raise Unsupported('iteration over a sequence of symbolic length')

  def __len__(self):
    return nn(self.length())

  def __bool__(self):
    if self.kind == 'array':
      raise ValueError('The truth value of an array with more than one element is ambiguous.')
    return True

  def __contains__(self, v):
    raise Unsupported('in')

  # arrays
  @property
  def shape(self):
    return (nn(self.length()),)

  ndim = 1

  @property
  def size(self):
    return nn(self.length())

  def astype(self, *a, **k):
    return self.copy('array')

  def tolist(self):
    return self.copy('list')

  def flatten(self):
    return self.copy('array')

  def prod(self, axis=None, **k):
    return nn(product(self))

  def any(self, axis=None, **k):
    return any_of(self, bool)

  def all(self, axis=None, **k):
    return all_of(self, bool)

  def __repr__(self):
    return 'Seq(%s)' % ', '.join('%s..%s' % (p.lo, p.hi) for p in self.parts)


def blur(w, thin, i):
  """A tensor at one of several positions: only the sizes are known, and only
  those given by the same formula at all these positions."""
  from t3v import symtf
  v = w.f(i)
  if not isinstance(v, symtf.Tensor) or (isinstance(v, Loose) and not isinstance(v, Blur)):
    return None
  dims = list(v.dims if isinstance(v, Blur) else v.shape)
  for p in thin:
    x, y = w.f(p.lo), p.f(p.lo)
    if not isinstance(y, symtf.Tensor) or len(y.shape) != len(dims) or x.dtype != y.dtype:
      return None
    dims = [n if n is not None and known('==', Num.of(a) - Num.of(b)) else None
            for n, a, b in zip(dims, list(x.shape), list(y.shape))]
  return Blur(dims, v.dtype)


def _items(o):
  from t3v import symtf
  import numpy as np
  if isinstance(o, (list, tuple, np.ndarray, symtf.TensorShape)):
    return list(o)
  raise Unsupported('concatenation with %s' % type(o).__name__)


def store(parts, new):
  """parts with the positions of `new` replaced."""
  out, done = [], False
  for p in parts:
    if known('<=', new.lo - p.lo) and known('<=', p.hi - new.hi):
      if not done:
        out.append(new)
        done = True
      continue
    if need('<', p.hi - new.lo) or need('<', new.hi - p.lo):
      out.append(p)
      continue
    # a part may turn out to be empty for small d
    if known('<', p.lo - new.lo) is not False and need('<=', p.lo - new.lo):
      out.append(Part(p.lo, new.lo - 1, p.f))
    if not done:
      out.append(new)
      done = True
    if known('<', new.hi - p.hi) is not False and need('<=', new.hi - p.hi):
      out.append(Part(new.hi + 1, p.hi, p.f))
  if not done:
    raise IndexError('list assignment index out of range')
  return out


def formula(x, to_k=None):
  """Element function of the value x at K; to_k maps a position to K."""
  return lambda i: move(x, Num.of(i) if to_k is None else to_k(Num.of(i)))


class Rows(object):
  """A two-dimensional array with rows of symbolic length."""
  ndim = 2

  def __init__(self, rows):
    self.rows = [r.copy('array') for r in rows]

  @property
  def shape(self):
    return (len(self.rows), nn(self.rows[0].length()))

  def __len__(self):
    return len(self.rows)

  def __iter__(self):
    return iter(self.rows)

  def __getitem__(self, i):
    if isinstance(i, tuple):
      if isinstance(i[0], slice):
        if i[0] != slice(None) or len(i) != 2:
          raise Unsupported('array index')
        from t3v import symnp
        if isinstance(i[1], slice):
          return Rows([r[i[1]] for r in self.rows])
        return symnp.array([r[i[1]] for r in self.rows])
      r = self.rows[int(i[0])]
      return r[i[1]] if len(i) > 1 else r
    if isinstance(i, slice):
      return Rows(self.rows[i])
    return self.rows[int(i)]

  def astype(self, *a, **k):
    return self

  def tolist(self):
    return [r.copy('list') for r in self.rows]

  @property
  def size(self):
    return nn(self.rows[0].length() * len(self.rows))

  def flatten(self):
    return Many(self.rows)
  ravel = flatten

  def _compare(op):
    return lambda self, o: Many([getattr(r, op)(o) for r in self.rows])
  __lt__, __le__, __gt__, __ge__ = _compare('__lt__'), _compare('__le__'), _compare('__gt__'), _compare('__ge__')
  del _compare

  def any(self):
    return Many(self.rows).any()

  def all(self):
    return Many(self.rows).all()

  def prod(self, axis=None, **k):
    from t3v import symnp
    return symnp.prod(self, axis=axis)


class Many(object):
  """The elements of several sequences, one after the other."""

  def __init__(self, seqs):
    self.seqs = list(seqs)

  @property
  def size(self):
    n = Num.const(0)
    for s in self.seqs:
      n = n + s.length()
    return nn(n)

  def _compare(op):
    return lambda self, o: Many([getattr(s, op)(o) for s in self.seqs])
  __lt__, __le__, __gt__, __ge__ = _compare('__lt__'), _compare('__le__'), _compare('__gt__'), _compare('__ge__')
  del _compare

  def any(self):
    return builtins.any(any_of(s, bool) for s in self.seqs)

  def all(self):
    return builtins.all(all_of(s, bool) for s in self.seqs)

  def __iter__(self):
    raise Unsupported('iteration over a sequence of symbolic length')


class Loose(object):
  """A tensor known only up to its shape; the one thing to do is reshape it."""
  # made a subclass of symtf.Tensor by install()


Spread = Blur = Columns = Loose


def equal(a, b):
  """Whether two elements are certainly equal."""
  from t3v import symtf
  if isinstance(a, Num) or isinstance(b, Num):
    if not (num.is_number(a) and num.is_number(b)):
      return False
    return known('==', Num.of(a) - Num.of(b)) is True
  if isinstance(a, symtf.Tensor) and isinstance(b, symtf.Tensor):
    if a is b:
      return True
    try:
      p, q = a.T_.sizes(), b.T_.sizes()
      if len(p) != len(q) or not all(known('==', x - y) is True for x, y in zip(p, q)):
        return False
      return a.dtype == b.dtype and X.difference(a.T_, b.T_) is None
    except X.InvalidArgument:
      return False
  if isinstance(a, (list, tuple)) and type(a) == type(b):
    return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
  try:
    return type(a) == type(b) and bool(a == b)
  except Exception:
    return False


def seq_eq(a, b):
  if not num.decide('==', a.length() - b.length()):
    return False
  return all_of(zip_([a, b]), lambda ab: bool(ab[0] == ab[1]))


def zip_(seqs):
  n = seqs[0].length()
  for s in seqs[1:]:
    if need('<', s.length() - n):
      n = s.length()
  return Seq([Part(0, n - 1, lambda i: tuple(s.get(i) for s in seqs))], 'iter', seqs[0].off)


class View(object):
  """zip, enumerate and reversed objects of symbolic length.

  step = -1: the elements are visited from the last to the first."""

  def __init__(self, seq, step=1):
    self.seq, self.step = seq, step

  def __iter__(self):
    raise Unsupported('iteration over a sequence of symbolic length')

  def length(self):
    return self.seq.length()


class Range(object):

  def __init__(self, start, stop, step):
    self.start, self.stop, self.step = Num.of(start), Num.of(stop), int(step)
    if self.step not in (1, -1):
      raise Unsupported('range step %d with a symbolic bound' % self.step)

  def bounds(self):
    """(first, last) in the order of iteration."""
    return self.start, self.stop - self.step

  def length(self):
    return (self.stop - self.start) * self.step

  def seq(self):
    a, s = self.start, self.step
    r = Seq([Part(0, self.length() - 1, lambda i: nn(a + Num.of(i) * s))], 'iter')
    if s == 1:
      r.off = a
    return r

  def __iter__(self):
    raise Unsupported('iteration over a symbolic range')


SHAPE = [None]


def is_seq(x):
  return isinstance(x, (Seq, Range, View)) or (SHAPE[0] is not None and isinstance(x, SHAPE[0]))


def seq_of(x):
  """x as a Seq in the order of iteration."""
  from t3v import symtf
  if isinstance(x, Seq):
    return x
  if isinstance(x, Range):
    return x.seq()
  if isinstance(x, View):
    return x.seq if x.step == 1 else x.seq.reverse()
  if SHAPE[0] is not None and isinstance(x, SHAPE[0]):
    return x.seq
  if isinstance(x, (list, tuple, symtf.TensorShape)):
    return Seq.of(list(x))
  raise Unsupported('%s as a sequence' % type(x).__name__)


def product(seq):
  """The product of a sequence of sizes."""
  s = seq_of(seq)
  if s.stem is not None:
    return pre_size(s.stem, A.d)
  if A.pows:
    r = _product_of_powers(s)
    if r is not None:
      return r
  out = Num.const(1)
  for p in s.parts:
    if p.lo.same(p.hi):
      out = out * Num.of(p.f(p.lo))
      continue
    if special_k(False):
      raise Unsupported('product')
    i = A.K if known('<=', p.lo - 1) and known('<=', A.d - 2 - p.hi) else p.lo + A.K - 1
    v = Num.of(p.f(i))
    if not mentions_k(v):
      out = out * v ** (p.hi - p.lo + 1)
      continue
    if len(v.t) != 1:
      raise Unsupported('product of %s' % v)
    (m, c), = v.t.items()
    if c != 1:
      raise Unsupported('product of %s' % v)
    for b, e in m:
      # the product of stem[lo..hi] in terms of products of the first ones
      if not (isinstance(b, str) and b in A.reg and b.startswith('prod-') is False):
        raise Unsupported('product of %s' % v)
      stem, by = b[:b.rindex('[')], A.reg[b][1] - i
      if mentions_k(by):
        raise Unsupported('product of %s' % v)
      out = out * (pre_size(stem, p.hi + by + 1) / pre_size(stem, p.lo + by)) ** e
  return out


# -- powers with a symbolic exponent -------------------------------------------
def exponents(x):
  """{base: exponent} of a positive product of powers."""
  x = Num.of(x)
  if len(x.t) != 1:
    return {Num.sym(('base', x.key)).key: Num.const(1)}
  (m, c), = x.t.items()
  if c <= 0:
    raise Unsupported('power of %s' % x)
  out = {}

  def add(b, e):
    out[b] = out[b] + e if b in out else e
  for p, k in _primes(c):
    add(Num.const(p).key, Num.const(k))
  for b, e in m:
    if b in A.pows:
      for b2, e2 in exponents(A.pows[b][0]).items():
        add(b2, e2 * A.pows[b][1] * Num.const(e))
    else:
      add(Num.sym(b).key, Num.const(e))
  return {b: e for b, e in out.items() if not e.is_zero()}


def _primes(c):
  out = []
  for n, s in ((c.numerator, 1), (c.denominator, -1)):
    p = 2
    while n > 1:
      if p * p > n or p > 1000:
        p = n
      if n % p:
        p += 1
        continue
      out.append((p, s))
      n //= p
  return out


def power(x, e):
  """x ** e, with the powers of powers taken together."""
  e = Num.of(e)
  out = Num.const(1)
  for b, k in exponents(x).items():
    b, k = Num(dict(b)), k * e
    if k.is_const():
      out = out * b ** k
      continue
    name = '$(%s)^(%s)' % (b, k)
    A.pows[name] = (b, k)
    out = out * num.CTX.symbol(name, real=True)
  return out


def _product_of_powers(s):
  """The product of a sequence of powers with the same symbolic exponent."""
  es = []

  def base(v):
    v = Num.of(v)
    if v.same(1):
      return v
    if len(v.t) != 1:
      return None
    (m, c), = v.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0] not in A.pows:
      return None
    b, e = A.pows[m[0][0]]
    es.append(e)
    return b
  for p in s.parts:
    for i in (p.lo, p.hi) if p.lo.same(p.hi) else (p.lo, p.hi, p.lo + A.K):
      if base(p.f(i)) is None:
        return None
  if not es or not all(e.same(es[0]) for e in es) or mentions_k(es[0]):
    return None
  n = len(es)
  r = power(product(Seq([Part(p.lo, p.hi, (lambda f: lambda i: base(f(i)))(p.f)) for p in s.parts])), es[0])
  return r if all(e.same(es[0]) for e in es[n:]) else None


# -- cutting ------------------------------------------------------------------
def phases(first, last, step=1):
  """The cut of the positions first..last, in the order of iteration:
  ('one', position) and ('gen',) for all of 1..d-2."""
  first, last = Num.of(first), Num.of(last)
  n = (last - first) * step
  if n.is_const() and -1 <= n.const_value() < 50:
    return [('one', first + step * i) for i in range(int(n.const_value()) + 1)]
  lo, hi = (first, last) if step == 1 else (last, first)
  if not (lo.same(0) or lo.same(1)):
    raise Unsupported('range %s..%s' % (lo, hi))
  e = hi - A.d
  if not e.is_const() or not -2 <= e.const_value() <= 4:
    raise Unsupported('range %s..%s' % (lo, hi))
  out = [('one', lo)] if lo.same(0) else []
  out.append(('gen',))
  out += [('one', A.d + k) for k in range(-1, int(e.const_value()) + 1)]
  return out if step == 1 else out[::-1]


def cut(seq, fn):
  """[(phase, fn(element))] for a computation without carried state."""
  s = seq_of(seq)
  out = []
  for ph in phases(*s.span()):
    if ph[0] == 'one':
      out.append((ph, fn(s.at(ph[1]))))
    else:
      generic()
      A.open = _Region()
      out.append((ph, fn(s.at(A.K))))
      A.open = None
  return out


class _Region(object):
  step = 1

  def before(self):
    raise Unsupported('list under construction')


def generic():
  """Position K is about to stand for all inner positions."""
  if A.open is not None:
    raise Unsupported('nested loop over a sequence of symbolic length')
  if A.witness:
    raise Unsupported('after ' + A.witness)


def all_of(seq, fn):
  for ph, v in cut(seq, fn):
    if not v:
      if ph[0] == 'gen' and special_k():
        A.witness = 'a comparison that fails at position K'
      return False
  return True


def any_of(seq, fn):
  return not all_of(seq, lambda x: not fn(x))


class Extreme(object):
  """The largest (sign = 1) or smallest element; only comparisons."""

  def __init__(self, seq, sign):
    self.seq, self.sign = seq_of(seq), sign

  def _all(self, op, o):
    s = self.sign
    return all_of(self.seq, lambda x: bool(num.decide(op, (Num.of(x) - Num.of(o)) * s)))

  def __le__(self, o):
    return self._all('<=', o) if self.sign == 1 else not self._all('<', o)

  def __lt__(self, o):
    return self._all('<', o) if self.sign == 1 else not self._all('<=', o)

  def __ge__(self, o):
    return not self < o

  def __gt__(self, o):
    return not self <= o

  def __eq__(self, o):
    return self <= o and self >= o

  def __ne__(self, o):
    return not self == o

  __hash__ = object.__hash__


def comprehension(fn, it):
  s = seq_of(it)
  out = []
  for ph, v in cut(s, fn):
    if ph[0] == 'one':
      out.append(one(ph[1] - s.off, v))
    else:
      out.append(Part(Num.const(1) - s.off, A.d - 2 - s.off, formula(v, lambda i: i + s.off)))
  return Seq(out, 'list', s.off)


# -- integration with the stand-ins for TensorFlow ------------------------------
def install():
  """Define the classes that extend symtf's."""
  global Loose, Spread, Blur, Columns
  if SHAPE[0] is not None:
    return
  from t3v import symtf

  class Shape(symtf.TensorShape):

    def __init__(self, dims):
      self.seq = seq_of(dims).map(lambda x: x, 'tuple') if not isinstance(dims, Seq) else dims.copy('tuple')
      self._dims = None

    def __iter__(self):
      return iter(self.seq)

    def __len__(self):
      return len(self.seq)

    def __getitem__(self, i):
      r = self.seq[i]
      return symtf.TensorShape(r) if isinstance(r, Seq) else r

    def length(self):
      return self.seq.length()

    @property
    def rank(self):
      return nn(self.seq.length())
    ndims = rank

    def as_list(self):
      return self.seq.copy('list')
    dims = property(as_list)

    def is_fully_defined(self):
      return True

    def num_elements(self):
      return nn(product(self.seq))

    def concatenate(self, o):
      return symtf.TensorShape(self.seq + seq_of(o))

    def __add__(self, o):
      return self.concatenate(o)

    def __radd__(self, o):
      return symtf.TensorShape(seq_of(o) + self.seq)

    def __eq__(self, o):
      if not isinstance(o, (symtf.TensorShape, list, tuple, Seq)):
        return False
      return seq_eq(self.seq, seq_of(o))

    def __ne__(self, o):
      return not self.__eq__(o)

    __hash__ = object.__hash__

    def is_compatible_with(self, o):
      return self.__eq__(o)

    def __bool__(self):
      return True

    def __repr__(self):
      return 'TensorShape(%r)' % self.seq
    __str__ = __repr__

  class LooseTensor(symtf.Tensor):

    def __init__(self, base, dtype):
      self.base = base
      self._dtype = dtype

    def _no(self):
      raise Unsupported('a tensor of unknown shape is used other than by reshape')
    _t = property(_no)
    _known = property(_no)
    T_ = property(_no)
    shape = property(_no)
    shape_ = property(lambda self: self.shape)

  class SpreadTensor(LooseTensor):

    def __init__(self, base, dtype, dims):
      LooseTensor.__init__(self, base, dtype)
      self.dims = dims

    @property
    def shape(self):
      return symtf.TensorShape(self.dims)

  class BlurShape(symtf.TensorShape):

    def __init__(self, dims):
      self._dims = tuple(dims)

    def _get(self, n):
      if n is None:
        raise Unsupported('size of a core that depends on the position')
      return n

    def __iter__(self):
      return iter([self._get(n) for n in self._dims])

    def __getitem__(self, i):
      return BlurShape(self._dims[i]) if isinstance(i, slice) else self._get(self._dims[i])

    def as_list(self):
      return list(self)

    def is_fully_defined(self):
      return True

    def __eq__(self, o):
      raise Unsupported('size of a core that depends on the position')
    __ne__ = is_compatible_with = concatenate = __eq__
    __hash__ = object.__hash__

  class BlurTensor(LooseTensor):

    def __init__(self, dims, dtype):
      LooseTensor.__init__(self, None, dtype)
      self.dims = dims

    @property
    def shape(self):
      return BlurShape(self.dims)

    @property
    def base(self):
      self._no()

    @base.setter
    def base(self, v):
      pass

  class ColumnsTensor(LooseTensor):
    """A matrix with a symbolic number n of columns col(i)."""

    def __init__(self, col, dtype, n):
      LooseTensor.__init__(self, None, dtype)
      self.col, self.n = col, Num.of(n)

    @property
    def shape(self):
      return symtf.TensorShape([nn(s) for s in self.col(Num.const(0)).sizes()] + [nn(self.n)])

    def reshaped(self, dims):
      if not dims[-1].same(self.n):
        raise Unsupported('reshape of a matrix with a symbolic number of columns')
      return ColumnsTensor(lambda i: X.reshape(self.col(i), dims[:-1]), self._dtype, self.n)

    def __getitem__(self, i):
      i = i if isinstance(i, tuple) else (i,)
      lead = i[:-1]
      if lead != (Ellipsis,) and lead != (slice(None),) * (len(self.shape) - 1) or not num.is_number(i[-1]):
        raise Unsupported('index of a matrix with a symbolic number of columns')
      k = Num.of(i[-1])
      if k.is_const() and k.const_value() < 0:
        k = self.n + k
      if not (need('<=', -k) and need('<=', k - self.n + 1)):
        raise IndexError('column %s' % k)
      return symtf.Tensor(self.col(k), self._dtype)

  SHAPE[0] = Shape
  Columns = ColumnsTensor
  Blur = BlurTensor
  Loose = LooseTensor
  Spread = SpreadTensor


def spread(x, dims):
  """x reshaped to a shape of symbolic length."""
  dims = seq_of(dims).copy('tuple')
  base = x.base if isinstance(x, Loose) else x.T_
  n = Num.const(1)
  for s in base.sizes():
    n = n * s
  if not num.decide('==', product(dims) - n):
    raise X.InvalidArgument('reshape of %s elements to a shape with %s' % (n, product(dims)))
  return Spread(X.reshape(base, [n]), x.dtype, dims)


def shape_class(dims):
  """The class of TensorShape(dims)."""
  return SHAPE[0] if SHAPE[0] is not None and is_seq(dims) else None
