"""Invariants of sweeps: loops that replace the cores one after the other and
hand the rest of the value on to the next core.

Left to right, with the target X(k) of shape [b?, left(k).., right(k)..] (the
value as a matrix, before position k): the cores stored so far multiply to
W(k) [b?, left(k).., rho(k)] with orthonormal columns, and the value C(k)
[b?, rho(k), right(k)..] handed on satisfies

  exact:      W(k) C(k) = X(k)
  projected:  C(k) = W(k)^T X(k)

Right to left the same holds for the transposed matrices.  W and rho are ghost
values: they are given by the cores stored by the loop (W(k + 1) = W(k) core k,
rho(k + 1) = the rank of that core), and unknown otherwise.
"""
from t3v import ctx as C
from t3v import num, seq, sym
from t3v import tensor as X
from t3v.num import Num, Unsupported
from t3v.seq import A, known, nn


class Sweep(object):

  def __init__(self, B, name, target, up, exact, bound, bat, nmode, orth=True):
    """target(k): (value [b?, left.., right..]) where left (right for down) has
    nmode axes; bound(k): an upper bound of the rank or None."""
    self.B, self.name, self.target = B, name, target
    self.up, self.exact, self.bound, self.bat, self.nmode, self.orth = up, exact, bound, bat, nmode, orth
    self.fixed = {}    # position -> W
    self.ranks = {}    # position -> rank
    self.done = self.deep = False

  # -- ghost values
  def rho(self, k):
    k = Num.of(k)
    if k.same(0) or k.same(A.d):
      return Num.const(1)
    if k.key in self.ranks:
      return self.ranks[k.key]
    for base, to in num.CTX.defs:
      if base == ('rank', self.name):
        return to
    name = '%s[%s]' % (self.name, k)
    A.reg[name] = (self.rho, k)
    x = num.CTX.symbol(name)
    if self.bound is not None:
      num.CTX.axiom('<=', x - Num.of(self.bound(k)))
    for base, to in num.CTX.defs:
      # rho(K + 1) = min(...) at K, hence everywhere
      if base[0] == 'min' and to == '%s[%s]' % (self.name, A.K + 1 if self.up else A.K) and not self.deep:
        j = k - 1 if self.up else k
        self.deep = True
        for a in base[1]:
          num.CTX.axiom('<=', x - (Num(dict(a)) if j.same(A.K) else seq.subst_num(Num(dict(a)), j)))
        self.deep = False
    return x

  def _split(self, k):
    """The target as a matrix: rows belong to W, columns to C."""
    t = self.B.val(self.target(k))
    o = 1 if self.bat else 0
    n = self.nmode
    if not self.up:
      r = t.ndim - n
      t = self.B.transpose(t, list(range(o)) + list(range(r, t.ndim)) + list(range(o, r)))
    s = list(t.shape)
    return t, s[:o], s[o:o + n], s[o + n:]

  def W(self, k):
    """The orthonormal part, axes [b?, left.., rho] or [b?, rho, right..]."""
    k = Num.of(k)
    w = self._w(k)
    return w if self.up else self._flip(w)

  def _flip(self, w):
    o = 1 if self.bat else 0
    return self.B.transpose(w, list(range(o)) + [w.ndim - 1] + list(range(o, w.ndim - 1)))

  def _w(self, k):
    if k.key in self.fixed:
      return self.fixed[k.key]
    return self._pair(k)[0]

  def _pair(self, k):
    B = self.B
    t, bs, rows, cols = self._split(k)
    rho = self.rho(k)
    if self.exact:
      m = B.reshape(t, bs + [B.prod(rows), B.prod(cols)])
      q, r = X.factor(sym._t(m), rho, self.name)
      return B.reshape(sym.V(q), bs + rows + [rho]), B.reshape(sym.V(r), bs + [rho] + cols)
    o = len(bs)
    n = len(rows)
    head = '%s:W[%s]' % (self.name, k)
    info = {}
    sizes = [1 if Num.of(s).same(1) else 0 for s in bs + rows + [rho]]
    at, p = [], 0
    for one in sizes:
      at.append(None if one else p)
      p += 0 if one else 1
    pick = lambda ps: tuple(at[i] for i in ps if at[i] is not None)
    info['orth'] = [(pick(range(o, o + n)), pick([o + n]), pick(range(o)))]
    w = B.val(B._atom(head, bs + rows + [rho], lambda j: ('in', '%s:W[%s]' % (self.name, j)), k, None, info))
    return w, self._project(w, t)

  def _labels(self, t):
    o, n = 1 if self.bat else 0, self.nmode
    b = ['b'] * o
    rows = ['n%d' % i for i in range(n)]
    cols = ['c%d' % i for i in range(t.ndim - o - n)]
    return b, rows, cols

  def _project(self, w, t):
    b, rows, cols = self._labels(t)
    return self.B.contract([b + rows + ['r'], b + rows + cols], [w, t], b + ['r'] + cols)

  def rest(self, k):
    """The value handed on, axes [b?, rho, right..] or [b?, left.., rho]."""
    c = self._pair(Num.of(k))[1]
    o = 1 if self.bat else 0
    return c if self.up else self.B.transpose(c, list(range(o)) + list(range(o + 1, c.ndim)) + [o])

  # -- checks
  def _rank_of(self, core):
    return Num.of(list(core.shape)[-1 if self.up else (1 if self.bat else 0)])

  def _is_orth(self, w):
    b, rows, _ = self._labels(w)
    g = self.B.contract([b + rows + ['r'], b + rows + ['s']], [w, w], b + ['r', 's'])
    e = X.eye(Num.of(w.shape[-1]))
    if self.bat:
      e = sym._t(self.B.contract([['b'], ['r', 's']], [self.B.ones([w.shape[0]]), sym.V(e)], ['b', 'r', 's']))
    return X.difference(sym._t(g), e) is None

  def _holds(self, k, w, x):
    """The relation of W(k) = w and the value x handed on (in any shape)."""
    from t3v import symgrad
    B = self.B
    t, bs, rows, cols = self._split(k)
    if not all(known('==', Num.of(p) - Num.of(q)) is True for p, q in zip(list(w.shape), bs + rows)):
      return False
    if self.orth and not self._is_orth(w):
      return False
    rho = w.shape[-1]
    x = sym.V(symgrad.resolve(x.T_))
    o = len(bs)
    if self.up:
      x = B.reshape(x, bs + [rho] + cols)
    else:
      x = B.reshape(x, bs + cols + [rho])
      x = B.transpose(x, list(range(o)) + [x.ndim - 1] + list(range(o, x.ndim - 1)))
    b, lr, lc = self._labels(t)
    if self.exact:
      y, want = B.contract([b + lr + ['r'], b + ['r'] + lc], [w, x], b + lr + lc), t
    else:
      y, want = x, self._project(w, t)
    return X.difference(sym._t(y), sym._t(want)) is None

  def _extend(self, w, core):
    """W(k) core k (transposed for down)."""
    mat = self.nmode == 2
    if self.up:
      return self.B.extend(w, core, self.bat, mat)
    v = self.B.extend_left(core, self._flip(w), self.bat, mat)
    o = 1 if self.bat else 0
    return self.B.transpose(v, list(range(o)) + list(range(o + 1, v.ndim)) + [o])

  # -- protocol of cut.Loop
  def enter(self, loop, state, lists):
    from t3v import symtf
    if self.done or loop.step != (1 if self.up else -1):
      return None
    k = loop.point('entry')
    for v, s in lists:
      first = A.d - 1 if not self.up else Num.const(0)
      if s.slot and isinstance(state.get(s.slot), symtf.Tensor):
        todo = [s.slot]
      elif self.up and s._size().same(1):
        todo = [u for u, x in state.items() if isinstance(x, symtf.Tensor)]
      else:
        continue
      core = s._get(first)
      if not isinstance(core, symtf.Tensor) or isinstance(core, seq.Loose):
        continue
      for u in todo:
        try:
          c = self.B.val(core)
          w = self.B.squeeze(c, (1 if self.bat else 0) if self.up else c.ndim - 1)
          if not self.up:
            o = 1 if self.bat else 0
            w = self.B.transpose(w, list(range(o)) + list(range(o + 1, w.ndim)) + [o])
          ok = not isinstance(state[u], seq.Loose) and self._holds(k, w, state[u])
        except (Unsupported, X.InvalidArgument, ValueError, IndexError):
          ok = False
        if not ok:
          continue
        rank = self._rank_of(core)
        if self.bound is not None and known('<=', rank - Num.of(self.bound(k))) is not True:
          continue
        self.fixed[k.key], self.ranks[k.key] = w, rank
        self.cores = s
        self.var = u
        return self._start(loop, state, lists)
    return None

  def _start(self, loop, state, lists):
    k = loop.point('head')
    rank = self.ranks[loop.point('entry').key]
    nxt = loop.point('post')
    self.rho(nxt)
    out = {self.var: seq.Loose(sym._t(self.rest(k)), state[self.var].dtype)}
    for v, x in state.items():
      if v != self.var and num.is_number(x) and not isinstance(x, bool) and known('==', Num.of(x) - rank) is True:
        out[v] = nn(self.rho(k))
    for v, s in lists:
      if not s.slot and s is not self.cores and not s._size().is_const():
        e = s._get(A.d - 1 if loop.step == -1 else Num.const(0))
        if num.is_number(e) and known('==', Num.of(e) - (rank if loop.step == -1 else 1)) is True:
          s.past = self.rho
    return out

  def leave(self, loop, post, lists):
    from t3v import symtf
    s = self.cores
    if s.slot:
      here = [x for p, x in s.written if p.same(A.K)]
    else:
      here = s.added
    if len(here) != 1 or not isinstance(here[0], symtf.Tensor) or isinstance(here[0], seq.Loose):
      raise Unsupported('no core is stored')
    core = here[0]
    nxt = loop.point('post')
    rank, want = self._rank_of(core), self.rho(nxt)
    if not rank.same(want):
      if not seq.mentions_k(rank) and not any('[' in str(b) for b in seq.bases(rank)) and \
          rank.same(self.ranks[loop.point('entry').key]):
        raise C.Define(('rank', self.name), rank)
      base = _min_base(rank)
      if base is None or any(to == '%s[%s]' % (self.name, nxt) for _, to in num.CTX.defs):
        raise Unsupported('the rank of the new core is %s' % rank)
      raise C.Define(base, '%s[%s]' % (self.name, nxt))
    if self.bound is not None:
      base = [b for b, to in num.CTX.defs if b[0] == 'min' and to == '%s[%s]' % (self.name, nxt)]
      new = [Num(dict(a)) for a in base[0][1]] if base else [rank]
      if not any(known('<=', a - Num.of(self.bound(nxt))) is True for a in new):
        raise Unsupported('the rank bound is not preserved')
    w = self._extend(self._w(loop.point('head')), self.B.val(core))
    x = post[self.var]
    if isinstance(x, seq.Loose) or not isinstance(x, symtf.Tensor):
      raise Unsupported('the value handed on')
    self.fixed[nxt.key] = w
    if not self._holds(nxt, w, x):
      raise Unsupported('the sweep invariant is not preserved')
    out = {}
    end = loop.point('exit')
    for v, y in post.items():
      if v == self.var:
        out[v] = seq.Loose(sym._t(self.rest(end)), y.dtype)
      else:
        if not num.is_number(y) or known('==', Num.of(y) - want) is not True:
          raise Unsupported('the invariant of %s is not preserved' % v)
        out[v] = nn(self.rho(end))
    self.done = True
    return out


def _min_base(x):
  if len(x.t) != 1:
    return None
  (m, c), = x.t.items()
  if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'min':
    return m[0][0]
  return None


class Late(object):
  """A sweep over an object that the function makes."""

  def __init__(self, make):
    self.make, self.sweep = make, None

  def enter(self, loop, state, lists):
    if self.sweep is None:
      try:
        self.sweep = self.make()
      except IndexError:
        return None
    return self.sweep.enter(loop, state, lists)

  def __getattr__(self, name):
    if self.sweep is None:
      raise Unsupported('no sweep')
    return getattr(self.sweep, name)
