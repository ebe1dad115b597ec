"""Contract vocabulary for TT-objects with any number of cores.

Symbolically the number of cores is a symbol d >= 3 (see seq.py) and a
TT-object stands for its prefix products

  P(1) = core 0,   P(k + 1) = P(k) core k   with axes [batch?, N(k), M(k)?, r(k)]

where N(k) is the product of the first k sizes in row-major order, so that P(d)
is the tensor itself, flattened.  Concretely d is a small number and everything
is computed.
"""
import contextlib


# -- symbolic backend -----------------------------------------------------------
class SymAny(object):

  def any(self):
    """The number of cores."""
    from t3v import seq
    self.anyd = True
    self._objs = []
    return seq.start(self.ctx, self._record)

  def at_k(self):
    """An arbitrary inner position."""
    from t3v import seq
    return seq.nn(seq.A.K)

  def modes_any(self, stem):
    from t3v import seq
    if isinstance(stem, seq.Seq):
      return stem
    return seq.modes(stem) if isinstance(stem, str) else seq.Seq([seq.Part(0, seq.A.d - 1, lambda i: stem)])

  def total_any(self, stem):
    """The product of all sizes."""
    from t3v import seq
    return seq.pre_size(stem, seq.A.d)

  def core(self, x, i):
    """Core i of an argument."""
    return self.val(self._core(self._spec(x), i))

  def size_any(self, stem, i):
    from t3v import seq
    return seq.sym(stem, i)

  def after_raise(self):
    """The computation that has ended does not matter for the next one."""
    from t3v import seq
    seq.A.open = seq.A.witness = None

  def put(self, xs, i, v):
    """A copy with element i replaced; i is an end or K."""
    from t3v import seq
    xs = seq.seq_of(xs).copy('list')
    xs[i] = v
    seq.A.odd = True
    return xs

  def fold(self, name, term, op):
    """k -> term(0) op ... op term(k - 1)."""
    from t3v import seq
    A = seq.A

    def at(k):
      k = seq.Num.of(k)
      if k.same(1):
        return term(seq.Num.const(0))
      if k.same(A.K + 1) or k.same(A.d):
        return op(at(k - 1), term(k - 1))
      return self.val(self._atom('%s[%s]' % (name, k), list(term(seq.Num.const(0)).shape),
                                 lambda j: ('in', '%s[%s]' % (name, j)), k, None, {}))
    return at

  def index_any(self, name, dims, n, first=None):
    """Index rows: column i lies in [0, n[i]); first: bound of one more column
    before the others."""
    from t3v import expr as E
    from t3v import seq
    from t3v import tensor as X
    o = 0 if first is None else 1

    def head(j):
      h = ('iv', '%s[%s]' % (name, j))
      E.S.info.setdefault(h, {})['range'] = seq.sym(n, seq.Num.of(j))
      seq.A.heads[h] = (head, seq.Num.of(j))
      return h

    def col(i):
      i = seq.Num.of(i)
      if o and i.same(0):
        h = ('iv', name)
        E.S.info.setdefault(h, {})['range'] = seq.Num.of(first)
        return X.atom(h, [seq.Num.of(z) for z in dims])
      return X.atom(head(i - o), [seq.Num.of(z) for z in dims])
    return seq.Columns(col, self.tf.int64, seq.A.d + o)

  def elements_any(self, a, idx):
    """(elements, those of the product of the first k cores [rows, r])."""
    from t3v import seq
    bat = self.is_batch(a)
    Z = self.prod(list(idx.shape)[:-1])
    col = lambda i: self.reshape(self.val(idx[..., seq.nn(seq.Num.of(i))]), [Z])

    def part(k):
      c = self.core(a, k)
      if bat:
        return self.gather_multi(self.transpose(c, [0, 2, 1, 3]), 0, [col(0), col(k + 1)])
      return self.gather_multi(self.transpose(c, [1, 0, 2]), 0, [col(k)])
    at = self.recursion('E', lambda: self.squeeze(part(Num0()), 1),
                        lambda k, v: self.contract([['z', 'r'], ['z', 'r', 's']], [v, part(k)], ['z', 's']),
                        lambda k: [Z, seq.rank(self._spec(a)['r'], k)])
    return self.reshape(at(seq.A.d), list(idx.shape)[:-1]), lambda k: self.expand(at(k), 1)

  def recursion(self, name, first, step, sizes, shape=None):
    """k -> X(k) with X(1) = first and X(k + 1) = step(k, X(k)); shape(k, v):
    what is known about X(k)."""
    from t3v import seq
    A = seq.A

    def at(k):
      k = seq.Num.of(k)
      if k.same(1):
        return first()
      if k.same(A.K + 1) or k.same(A.d):
        return step(k - 1, at(k - 1))
      v = self.val(self._atom('%s[%s]' % (name, k), sizes(k), lambda j: ('in', '%s[%s]' % (name, j)), k, None, {}))
      return v if shape is None else shape(k, v)
    return at

  def chain_with(self, name, x, holds, like, dtype=None):
    """x is well formed and holds(k, product of the first k cores), by
    induction; like(k) is the one value for which it holds."""
    from t3v import seq
    A = seq.A
    if not self.wf_any(name, x, dtype):
      self.stop('malformed result')
    bat, mat = self.is_batch(x), len(x.get_raw_shape()) == 2
    core = lambda i: self.val(x.tt_cores.get(i))
    holds('first-core', seq.Num.const(1), self.squeeze(core(seq.Num.const(0)), 1 if bat else 0))
    holds('inner-core', A.K + 1, self.extend(like(A.K), core(A.K), bat, mat))
    holds('last-core', A.d, self.extend(like(A.d - 1), core(A.d - 1), bat, mat))
    self._generic_k()

  def root(self, c, k):
    """|c| to the power k/d."""
    from t3v import seq, sym
    tf = self.tf
    x = c if isinstance(c, tf.Tensor) else tf.constant(c, self.dtype)
    return sym.V(tf.pow(tf.abs(x), seq.nn(seq.Num.of(k) / seq.A.d)).T_)

  def sign_of(self, c):
    from t3v import sym
    tf = self.tf
    return sym.V(tf.sign(c if isinstance(c, tf.Tensor) else tf.constant(c, self.dtype)).T_)

  def first_any(self, stem, k):
    """The product of the first k sizes."""
    from t3v import seq
    return seq.pre_size(stem, k)

  def ranks_any(self, stem):
    from t3v import seq
    return seq.ranks(stem)

  def _new(self, name, kind, batch, n, m, r, dtype, info):
    from t3v import seq
    mat = kind == 'matrix'
    bs = [] if batch is None else [self.dim(batch) if isinstance(batch, str) else batch]
    spec = {'name': name, 'n': n, 'm': m if mat else None, 'r': r or name + '_r', 'bs': bs, 'mat': mat, 'info': info,
            'dtype': dtype}
    return spec, seq.Seq([seq.Part(0, seq.A.d - 1, lambda i: self._core(spec, i))])

  def cores_any(self, name, kind, batch):
    """A list of cores."""
    return self._new(name, kind, batch, 'n', 'm', None, None, {})[1]

  def tt_any(self, name, kind='tensor', batch=None, n='n', m='m', r=None, dtype=None, **info):
    from t3v import seq
    A = seq.A
    spec, cores = self._new(name, kind, batch, n, m, r, dtype, info)
    r, mat, bs = spec['r'], spec['mat'], spec['bs']
    ns, ms = self.modes_any(n), self.modes_any(m) if mat else None
    shape = [ns, ms] if mat else ns
    rk = self.tf.TensorShape(seq.ranks(r))
    # with different sizes at K the elements of a list rebuilt in a loop are not known
    kw = dict(convert_to_tensors=False) if seq.A.odd else {}
    x = self.t3f.TensorTrain(cores, shape, rk, **kw) if batch is None else \
        self.t3f.TensorTrainBatch(cores, shape, rk, bs[0], **kw)
    self._objs.append((x, spec))
    self.frames_any.append((x, x._tt_cores, x._raw_shape, x._tt_ranks, x._tt_cores.version))
    return x

  def _atom(self, head, dims, maker, i, dtype, info):
    from t3v import seq
    from t3v import expr as E
    seq.A.heads[('in', head)] = (maker, seq.Num.of(i))
    if info:
      E.S.info.setdefault(('in', head), {}).update(info)
    return self.tensor(head, dims, dtype)

  def _core(self, spec, i):
    from t3v import seq
    i = seq.Num.of(i)
    dims = spec['bs'] + [seq.rank(spec['r'], i), seq.sym(spec['n'], i)] + \
        ([seq.sym(spec['m'], i)] if spec['mat'] else []) + [seq.rank(spec['r'], i + 1)]
    name = spec['name']
    info = spec['info']
    if 'orth' in spec and not i.same(seq.A.d - 1 if spec['orth'][3] else 0):
      info = dict(info, orth=[self._positions(dims, spec['orth'])])
    return self._atom('%s[%s]' % (name, i), dims, lambda j: ('in', '%s[%s]' % (name, j)), i, spec['dtype'], info)

  def _positions(self, dims, orth):
    """(summed, free, batch) arguments of the atom; axes of size one have none."""
    at, p = [], 0
    for n in dims:
      one = n == 1 if isinstance(n, int) else n.same(1)
      at.append(None if one else p)
      p += 0 if one else 1
    pick = lambda ps: tuple(at[i] for i in ps if at[i] is not None)
    return pick(orth[0]), pick([orth[1]]), pick(orth[2])

  def _spec(self, x):
    for y, spec in self._objs:
      if x is y:
        return spec
    from t3v import seq
    raise seq.Unsupported('not an argument of the contract')

  def prefix(self, x, k, batch=None):
    """P(k); batch: the size of a batch axis to add to an object without."""
    from t3v import seq
    A = seq.A
    spec = self._spec(x)
    k = seq.Num.of(k)
    if k.same(1):
      c = self.val(self._core(spec, 0))
      v = self.squeeze(c, len(spec['bs']))
    elif k.same(A.K + 1) or k.same(A.d):
      v = self.extend(self.prefix(x, k - 1), self.val(self._core(spec, k - 1)), bool(spec['bs']), spec['mat'])
    else:
      name = spec['name']
      dims = spec['bs'] + [seq.pre_size(spec['n'], k)] + \
          ([seq.pre_size(spec['m'], k)] if spec['mat'] else []) + [seq.rank(spec['r'], k)]
      info = {}
      if 'orth' in spec and spec['orth'][3]:
        # products of orthonormal cores (lemma orthonormal_prefix)
        bat, mat = len(spec['bs']), spec['mat']
        info['orth'] = [self._positions(dims, (range(bat, bat + 1 + mat), bat + 1 + mat, range(bat)))]
      v = self.val(self._atom('P:%s[%s]' % (name, k), dims, lambda j: ('in', 'P:%s[%s]' % (name, j)), k,
                              spec['dtype'], info))
    return self._lift(v, spec, batch)

  def _lift(self, v, spec, batch):
    if batch is None:
      return v
    if not spec['bs']:
      lab = list(range(v.ndim))
      return self.contract([['b'], lab], [self.ones([batch]), v], ['b'] + lab)
    if spec['bs'] == [1]:
      return v * self.ones([batch] + [1] * (v.ndim - 1))
    return v

  def suffix(self, x, k, batch=None):
    """S(k): the product of cores k..d-1, axes [batch?, r(k), N, M?]."""
    from t3v import seq
    A = seq.A
    spec = self._spec(x)
    k = seq.Num.of(k)
    if k.same(A.d - 1):
      v = self.val(self._core(spec, k))
      v = self.squeeze(v, v.ndim - 1)
    elif k.same(A.K) or k.same(0):
      v = self.extend_left(self.val(self._core(spec, k)), self.suffix(x, k + 1), bool(spec['bs']), spec['mat'])
    else:
      name = spec['name']
      dims = spec['bs'] + [seq.rank(spec['r'], k), seq.suf_size(spec['n'], k)] + \
          ([seq.suf_size(spec['m'], k)] if spec['mat'] else [])
      info = {}
      if 'orth' in spec and not spec['orth'][3]:
        bat, mat = len(spec['bs']), spec['mat']
        info['orth'] = [self._positions(dims, (range(bat + 1, bat + 2 + mat), bat, range(bat)))]
      v = self.val(self._atom('S:%s[%s]' % (name, k), dims, lambda j: ('in', 'S:%s[%s]' % (name, j)), k,
                              spec['dtype'], info))
    return self._lift(v, spec, batch)

  def extend(self, p, c, bat, mat):
    """P(k) core k."""
    pre = ['b'] if bat else []
    v = self.contract([pre + ['N'] + (['M'] if mat else []) + ['r'],
                       pre + ['r', 'n'] + (['m'] if mat else []) + ['s']], [p, c],
                      pre + ['N', 'n'] + (['M', 'm'] if mat else []) + ['s'])
    s = list(v.shape)
    o = len(pre)
    return self.reshape(v, s[:o] + [s[o] * s[o + 1]] + ([s[o + 2] * s[o + 3]] if mat else []) + s[-1:])

  def extend_left(self, c, p, bat, mat):
    """core k S(k + 1)."""
    pre = ['b'] if bat else []
    v = self.contract([pre + ['r', 'n'] + (['m'] if mat else []) + ['s'],
                       pre + ['s', 'N'] + (['M'] if mat else [])], [c, p],
                      pre + ['r', 'n', 'N'] + (['m', 'M'] if mat else []))
    s = list(v.shape)
    o = len(pre)
    return self.reshape(v, s[:o + 1] + [s[o + 1] * s[o + 2]] + ([s[o + 3] * s[o + 4]] if mat else []))

  def flat(self, x, batch=None):
    """The tensor an argument stands for, axes [batch?, N, M?]."""
    from t3v import seq
    v = self.prefix(x, seq.A.d, batch)
    return self.squeeze(v, v.ndim - 1)

  def flat_left(self, x):
    """The same in terms of the suffix products."""
    v = self.suffix(x, 0)
    return self.squeeze(v, len(self._spec(x)['bs']))

  @contextlib.contextmanager
  def invariants(self, *gs):
    """Offers values, as functions of the position, for loop invariants."""
    from t3v import cut, seq
    old = seq.A.cand
    seq.A.cand = old + [cut.Invariant(g) for g in gs]
    try:
      yield
    finally:
      seq.A.cand = old

  def sweep(self, name, x, left=True, exact=True):
    """The invariant of a sweep over the cores of x (see sweep.py)."""
    from t3v import seq, sweep
    spec = self._spec(x)
    bat, mat = bool(spec['bs']), spec['mat']
    pre, mid = ['b'] * bat, ['n'] + ['m'] * mat
    big = ['N'] + ['M'] * mat

    def target(k):
      k = seq.Num.of(k)
      if left:
        return self.contract([pre + big + ['r'], pre + ['r'] + mid + ['s']],
                             [self.prefix(x, k), self.val(self._core(spec, k))], pre + big + mid + ['s'])
      return self.contract([pre + ['r'] + mid + ['s'], pre + ['s'] + big],
                           [self.val(self._core(spec, k - 1)), self.suffix(x, k)], pre + ['r'] + mid + big)
    return sweep.Sweep(self, name, target, left, exact, lambda k: seq.rank(spec['r'], k), bat, 1 + mat)

  @contextlib.contextmanager
  def by_contract(self, name, stand_in, module='decompositions'):
    """Calls of t3f.<module>.<name> are replaced by their contract."""
    import sys
    mods = [m for n, m in sys.modules.items() if n == 't3f' or n.startswith('t3f.')]
    orig = getattr(getattr(self.t3f, module), name)
    changed = [(m, k) for m in mods for k, v in list(vars(m).items()) if v is orig]
    for m, k in changed:
      setattr(m, k, stand_in)
    try:
      yield
    finally:
      for m, k in changed:
        setattr(m, k, orig)

  @contextlib.contextmanager
  def orthogonalized(self, space=None):
    """orthogonalize_tt_cores by its contract: another object for the same
    value, with orthonormal unfoldings and ranks that have not increased."""
    from t3v import seq
    log = []

    def orthogonalize(tt, left_to_right=True, name=None):
      for t, y, left in zip((space or ())[:2], (space or ())[1:], (True, False)):
        if tt is t and left_to_right == left:
          log.append((t, y, left))
          return y
      spec = self._spec(tt)
      bat, mat = len(spec['bs']), spec['mat']
      n = 'o%d' % len(log)
      k = 2 + mat
      lead, kept = list(range(bat)), (bat + k if left_to_right else bat)
      summed = [i for i in range(bat, bat + k + 1) if i != kept]
      stem = n + '_r'
      seq.A.limits[stem] = lambda i: seq.rank(spec['r'], i)
      y = self.tt_any(n, 'matrix' if mat else 'tensor', spec['bs'][0] if bat else None, spec['n'], spec['m'] or 'm',
                      stem, spec['dtype'])
      ys = self._objs[-1][1]
      ys['orth'] = (summed, kept, lead, left_to_right)
      ys['value'] = tt
      self.frames_any.pop()
      log.append((tt, y, left_to_right))
      return y
    with self.by_contract('orthogonalize_tt_cores', orthogonalize):
      yield log

  @contextlib.contextmanager
  def sums(self, cap, related=None):
    """add and round by their contracts: other objects for the sum and for the
    same value, with ranks within the limit.  related(x) gives the value of an
    object that was built in another way."""
    from t3v import seq
    log = _Values()

    def new(head, like, bs):
      log.count += 1
      n = '%s%d' % (head, log.count)
      y = self.tt_any(n, 'matrix' if like['mat'] else 'tensor', bs[0] if bs else None, like['n'], like['m'] or 'm',
                      n + '_r', like['dtype'])
      self.frames_any.pop()
      return y

    def known(x):
      v = log.of(x)
      return self.flat(x) if v is None else v

    def add(a, b):
      sa, sb = self._spec(a), self._spec(b)
      self.true('sum-of-equal-shapes', (sa['mat'], sa['n'], sa['m']) == (sb['mat'], sb['n'], sb['m']) and
                (not sa['bs'] or not sb['bs'] or sa['bs'] == sb['bs']))
      y = new('s', sa, sa['bs'] or sb['bs'])
      log.set(y, known(a) + known(b))
      return y

    def round_(tt, max_tt_rank=None, epsilon=None, name=None):
      self.true('rank-limit-handed-on', max_tt_rank is cap)
      if any(tt is y for y, _ in self._objs):
        spec, v = self._spec(tt), known(tt)
      else:
        spec, v = related(tt, log)
      seq.A.limits['q%d_r' % (log.count + 1)] = lambda i: cap
      y = new('q', spec, spec['bs'])
      log.set(y, v)
      log.rounded = y
      return y
    with self.by_contract('add', add, 'ops'), self.by_contract('round', round_):
      yield log

  def value_of(self, log, x):
    v = log.of(x)
    return self.flat(x) if v is None else v

  def halves(self, v, size, columns):
    """Elements 0, 2, ... and 1, 3, ..., padded with zero."""
    rest = list(v.shape)[1:]
    if columns is not None:
      v = self.reshape(v, [size, columns] + rest)
    at = [self.getitem(v, (i,)) for i in range(size)]
    odd = at[1::2] + [at[0] * 0] * (size % 2)
    out = []
    for part in (at[::2], odd):
      h = self.stack(part, 0)
      out.append(h if columns is None else self.reshape(h, [len(part) * columns] + rest))
    return out

  @contextlib.contextmanager
  def batch_sums(self, cap, a, size, weigh, columns=None):
    """The levels of a sum over the batch: each is the sum of the elements with
    even and odd numbers of the one before."""
    spec = self._spec(a)
    state = dict(size=size, prefix=lambda k: weigh(self.prefix(a, k)), flat=weigh(self.flat(a)),
                 value=weigh(self.flat(a)))

    def related(x, log):
      n = state['size']
      m = (n + 1) // 2
      if log.rounded is not None:
        y = log.rounded
        state.update(prefix=lambda k: self.prefix(y, k), flat=self.flat(y), value=log.of(y))
      P, V, G = state['prefix'], state['flat'], state['value']
      both = lambda v: self.halves(v, n, columns)
      add = lambda v: both(v)[0] + both(v)[1]
      self.chain('level-of-%d' % n, x, add(V), lambda k: self.concat(both(P(k)), P(k).ndim - 1))
      state['size'] = m
      return dict(spec, bs=[m if columns is None else m * columns]), add(G)
    with self.sums(cap, related) as log:
      log.state = state
      yield log

  def last_level(self, name, log, r, columns=None):
    """The result is the last level, or its only element; its value."""
    y, state = log.rounded, log.state
    if y is not None:
      state.update(prefix=lambda k: self.prefix(y, k), flat=self.flat(y), value=log.of(y))
      state['size'] = 1
    one = (lambda v: self.getitem(v, (0,))) if columns is None else (lambda v: v)
    self.chain(name, r, one(state['flat']), lambda k: one(state['prefix'](k)))
    return one(state['value'])

  def called(self, log, a):
    """The orthogonalized object that the function has worked on."""
    from t3v import seq
    if not log:
      raise seq.Unsupported('orthogonalize_tt_cores is not called')
    self.true('orthogonalizes-its-argument', len(log) == 1 and log[0][0] is a and log[0][2])
    return log[-1][1]

  def interfaces(self, log, x):
    """The objects with orthonormal left and right parts that describe the
    tangent space at x; None before the function has made them."""
    from t3v import seq
    l = [y for t, y, left in log if t is x and left]
    r = [y for t, y, left in log if l and t is l[0] and not left]
    if len(l) != 1 or len(r) != 1:
      raise seq.Unsupported('orthogonalizes %d times' % len(log))
    return l[0], r[0]

  def in_left(self, log, x, z):
    """k -> [b, r, s..]: the product z(k) [b, modes, s..] of the first k cores
    of another object in the left basis."""
    def at(k):
      l, _ = self.interfaces(log, x)
      mid = ['n'] + ['m'] * self._spec(x)['mat']
      v = z(k)
      tail = list(range(v.ndim - 1 - len(mid)))
      return self.contract([mid + ['r'], ['b'] + mid + tail], [self.prefix(l, k), v], ['b', 'r'] + tail)
    return at

  def in_right(self, log, x, z):
    """k -> [b, s.., r]: the product z(k) [b, s.., modes] of the cores k..d-1."""
    def at(k):
      _, r = self.interfaces(log, x)
      mid = ['n'] + ['m'] * self._spec(x)['mat']
      v = z(k)
      tail = list(range(v.ndim - 1 - len(mid)))
      return self.contract([['r'] + mid, ['b'] + tail + mid], [self.suffix(r, k), v], ['b'] + tail + ['r'])
    return at

  def variation(self, log, x, lhs, rhs, core):
    """k -> the variation of core k [b, r, modes, s] in the projection on the
    tangent space; core(k): [b, s.., modes, t..] of the object to project."""
    from t3v import seq
    mid = ['n'] + ['m'] * self._spec(x)['mat']

    def at(k):
      k = seq.Num.of(k)
      l, _ = self.interfaces(log, x)
      c = core(k)
      h = (c.ndim - 1 - len(mid)) // 2
      a, b = ['a%d' % i for i in range(h)], ['b%d' % i for i in range(h)]
      lead = lhs(k) if not k.same(0) else self.ones([c.shape[0], 1] + [1] * h)
      c = self.contract([['b', 'r'] + a, ['b'] + a + mid + b], [lead, c], ['b', 'r'] + mid + b)
      if k.same(seq.A.d - 1):
        return self.reshape(c, list(c.shape)[:2 + len(mid)] + [1])
      c = c - self.contract([['r'] + mid + ['t'], ['b', 't'] + b], [self.core(l, k), lhs(k + 1)],
                            ['b', 'r'] + mid + b)
      return self.contract([['b', 'r'] + mid + b, ['b'] + b + ['s']], [c, rhs(k + 1)], ['b', 'r'] + mid + ['s'])
    return at

  def tangent_any(self, log, x, variation, name='T', bs=None):
    """(value, prefix products) of the sum over k of
    left cores < k, variation(k), right cores > k."""
    l, r = self.interfaces(log, x)
    bs = list(bs or [])
    at = self._moving(l, r, variation, name, bs)
    return self._whole(at), self._blocks(l, at, bs)

  def _whole(self, at):
    from t3v import seq
    v = at(seq.A.d)
    return self.squeeze(v, v.ndim - 1)

  def _up(self, v, bs):
    return self.contract([['b'], list(range(v.ndim))], [self.ones(bs), v], ['b'] + list(range(v.ndim))) if bs else v

  def _blocks(self, l, at, bs):
    """Prefix products of a tangent vector."""
    def inv(k):
      a = at(k)
      return self.concat([a, self._up(self.prefix(l, k), bs)], a.ndim - 1)
    return inv

  def _moving(self, l, r, variation, name, bs, shape=None):
    """k -> T(k): the part of the first k cores in which one is varied."""
    from t3v import seq
    spec, rspec = self._spec(l), self._spec(r)
    mat, bat = spec['mat'], bool(bs)

    def step(k, p):
      return self.extend(p, self._up(self.core(r, k), bs), bat, mat) + \
          self.extend(self._up(self.prefix(l, k), bs), variation(k), bat, mat)

    def sizes(k):
      return bs + [seq.pre_size(spec['n'], k)] + ([seq.pre_size(spec['m'], k)] if mat else []) + \
          [seq.rank(rspec['r'], k)]
    return self.recursion(name, lambda: self.squeeze(variation(seq.Num.const(0)), len(bs)), step, sizes, shape)

  def tangent_space(self, kind):
    """A point and the two objects that describe its tangent space."""
    x = self.tt_any('x', kind)
    out = []
    mat = kind == 'matrix'
    for name, left in (('u', True), ('v', False)):
      y = self.tt_any(name, kind, r='x_r')
      kept = 2 + mat if left else 0
      self._objs[-1][1]['orth'] = ([i for i in range(3 + mat) if i != kept], kept, [], left)
      self.frames_any.pop()
      self.orthonormal_prefix(y)
      out.append(y)
    return (x,) + tuple(out)

  def free_core(self, space, name, bs, k):
    """An arbitrary tensor of the size of core k."""
    from t3v import seq
    l = self._spec(space[1])
    k = seq.Num.of(k)
    dims = list(bs) + [seq.rank(l['r'], k), seq.sym(l['n'], k)] + ([seq.sym(l['m'], k)] if l['mat'] else []) + \
        [seq.rank(self._spec(space[2])['r'], k + 1)]
    return self.val(self._atom('%s[%s]' % (name, k), dims, lambda j: ('in', '%s[%s]' % (name, j)), k, None, {}))

  def free_cores(self, space, name, bs):
    from t3v import seq, symtf, sym
    return seq.Seq([seq.Part(0, seq.A.d - 1,
                             lambda i: symtf.Tensor(sym._t(self.free_core(space, name, bs, i)), self.dtype))])

  def whole(self, p):
    return self._whole(p.at)

  def tangent_sum(self, space, at, bs):
    return self._whole(at), self._blocks(space[1], at, bs)

  def tangent_of(self, space, ds, bs):
    at = self._moving(space[1], space[2], lambda k: self.val(ds.get(k)), 'T', bs)
    return self._whole(at), self._blocks(space[1], at, bs)

  def deltas_are(self, name, ds, space, p):
    from t3v import seq
    self._generic_k()
    ds = seq.seq_of(ds)
    self.same(name + '/count', ds.length(), seq.A.d)
    for what, i in (('first', Num0()), ('inner', seq.A.K), ('last', seq.A.d - 1)):
      self.eq('%s/%s' % (name, what), ds.get(i), p.variation(i))
    self._generic_k()

  def gauged(self, space, name, bs):
    """k -> variations orthogonal to the left basis (but for the last)."""
    from t3v import seq
    l = space[1]
    mat, o = self._spec(l)['mat'], len(bs)
    mid, b = ['n'] + ['m'] * mat, ['b'] * o

    def variation(k):
      k = seq.Num.of(k)
      w = self.free_core(space, name, bs, k)
      if k.same(seq.A.d - 1):
        return w
      u = self.core(l, k)
      c = self.contract([['r'] + mid + ['t'], b + ['r'] + mid + ['s']], [u, w], b + ['t', 's'])
      return w - self.contract([['r'] + mid + ['t'], b + ['t', 's']], [u, c], b + ['r'] + mid + ['s'])
    return variation

  def moving(self, space, variation, name, bs):
    """T(k) for variations orthogonal to the left basis: the columns of T(k)
    are orthogonal to it, too (lemma, by induction)."""
    from t3v import seq
    A = seq.A
    _, l, r = space
    b, big = ['b'] * len(bs), ['N'] + ['M'] * self._spec(l)['mat']

    def shape(k, v):
      p = self.prefix(l, k)
      c = self.contract([big + ['r'], b + big + ['s']], [p, v], b + ['r', 's'])
      return v - self.contract([big + ['r'], b + ['r', 's']], [p, c], b + big + ['s'])
    at = self._moving(l, r, variation, 'T:' + name, bs, shape)
    for what, k in (('base', Num0() + 1), ('step', A.K + 1), ('last', A.d - 1)):
      v, p = at(k), self.prefix(l, k)
      g = self.contract([big + ['r'], b + big + ['s']], [p, v], b + ['r', 's'])
      self.eq('%s/orthogonal-to-the-left-basis/%s' % (name, what), g, self.zeros(list(g.shape)))
    return at

  def residual(self, name, p, x, z):
    """Lemma: what the projection p drops is orthogonal to every tangent
    vector w, by induction over the scalar products of the first k cores."""
    from t3v import seq
    A = seq.A
    space = (x,) + tuple(self.interfaces(p.log, x))
    big = ['N'] + ['M'] * self._spec(x)['mat']
    w = self.moving(space, self.gauged(space, 'w', []), 'w', [])
    v = self.variation(p.log, x, p.lhs, p.rhs, p.core)
    t = self.moving(space, lambda k: self.squeeze(v(k), 0), 'p', [])

    def got(k):
      return self.contract([big + ['r'], big + ['r']], [w(k), t(k)], [])

    def want(k):
      if seq.Num.of(k).same(A.d):
        return self.contract([big + ['r'], big + ['r']], [w(k), self.prefix(z, k)], [])
      return self.contract([big + ['r'], big + ['s'], ['b', 's', 'r']], [w(k), self.prefix(z, k), p.rhs(k)], [])
    one = Num0() + 1
    self.eq(name + '/first-core', got(one), want(one))
    for what, k in (('inner-core', A.K), ('last-core', A.d - 1)):
      self.eq('%s/%s' % (name, what), got(k + 1) - got(k), want(k + 1) - want(k))
    self._generic_k()

  def tangent_vector(self, space, name, bs):
    """A tangent vector in the form project gives it."""
    from t3v import seq, symtf, sym
    A = seq.A
    x, l, r = space
    mat, o = self._spec(l)['mat'], len(bs)
    variation = self.gauged(space, name, bs)
    at = self.moving(space, variation, name, bs)

    def core(k):
      k = seq.Num.of(k)
      n = 2 + mat + o
      up = lambda v: self._up(v, bs)
      if k.same(0):
        v = self.concat([variation(k), up(self.core(l, k))], n)
      elif k.same(A.d - 1):
        v = self.concat([up(self.core(r, k)), variation(k)], o)
      else:
        top = up(self.core(r, k))
        v = self.concat([self.concat([top, self.zeros(list(top.shape))], n),
                         self.concat([variation(k), up(self.core(l, k))], n)], o)
      return symtf.Tensor(sym._t(v), self.dtype)
    spec = self._spec(l)
    ns = self.modes_any(spec['n'])
    raw = [ns, self.modes_any(spec['m'])] if mat else ns
    cores = seq.Seq([seq.one(Num0(), core(Num0())), seq.Part(1, A.d - 2, core), seq.one(A.d - 1, core(A.d - 1))])
    y = self.t3f.TensorTrainBatch(cores, raw, batch_size=bs[0]) if bs else self.t3f.TensorTrain(cores, raw)
    y.projection_on = x
    self.frames_any.append((y, y._tt_cores, y._raw_shape, y._tt_ranks, y._tt_cores.version))
    return Tangent(y, variation, at, bs)

  def orthonormal_prefix(self, o):
    """Lemma: products of cores with orthonormal unfoldings have orthonormal
    columns (rows); by induction."""
    from t3v import seq
    spec = self._spec(o)
    bat, mat, left = len(spec['bs']), spec['mat'], spec['orth'][3]
    A = seq.A
    f = self.prefix if left else self.suffix
    for what, k in (('base', seq.Num.const(1) if left else A.d - 1), ('step', A.K + 1 if left else A.K)):
      v = f(o, k)
      b, mid = ['b'] * bat, ['n'] + ['m'] * mat
      x, y = (b + mid + ['r'], b + mid + ['s']) if left else (b + ['r'] + mid, b + ['s'] + mid)
      g = self.contract([x, y], [v, v], b + ['r', 's'])
      e = self.eye(g.shape[-1])
      if bat:
        e = self.expand(e, 0) * self.ones([spec['bs'][0], 1, 1])
      self.eq('orthonormal-products/%s' % what, g, e)

  def late(self, make):
    from t3v import sweep
    return sweep.Late(make)

  def ranks_within(self, a, limit):
    from t3v import seq
    seq.A.limits[self._spec(a)['r']] = limit

  def caps_any(self, stem):
    """Rank limits of at least two at the inner positions."""
    from t3v import seq
    one = lambda i: seq.one(i, 1)

    def cap(i):
      x = seq.sym(stem, i)
      self.ctx.axiom('<=', seq.Num.const(2) - x)
      return seq.nn(x)
    A = seq.A
    return seq.Seq([one(0), seq.Part(1, A.d - 1, cap), one(A.d)])

  def projected(self, q, r):
    """The value of the first core times W(1)."""
    bat, mat = self.is_batch(r), len(r.get_raw_shape()) == 2
    v = self.extend_left(q.rest(1), q.W(1), bat, mat)
    return self.squeeze(v, 1 if bat else 0)

  def projected_left(self, q, r):
    """W(d - 1) times the value of the last core."""
    from t3v import seq
    k = seq.A.d - 1
    v = self.contract([['n', 'r'], ['r', 'm']], [q.W(k), q.rest(k)], ['n', 'm'])
    s = list(v.shape)
    return self.reshape(v, [s[0] * s[1]])

  @contextlib.contextmanager
  def sweeps(self, *gs):
    from t3v import seq
    old = seq.A.ghosts
    seq.A.ghosts = old + list(gs)
    try:
      yield
    finally:
      seq.A.ghosts = old

  def orthonormal_any(self, name, x, left=True):
    """Unfoldings of all cores but the last (first)."""
    from t3v import seq
    from t3v.contracts.decomp import gram_of_core, identity
    self._generic_k()
    bat = x.batch_size if self.is_batch(x) else None
    A = seq.A
    for what, i in (('first', seq.Num.const(0)), ('inner', A.K)) if left else (('inner', A.K), ('last', A.d - 1)):
      g = gram_of_core(self, self.val(x.tt_cores.get(i)), 'right' if left else 'left', bat is not None)
      self.eq('%s/%s-core' % (name, what), g, identity(self, g.shape[-1], bat))

  def rank_limit_any(self, name, x, limit):
    """Every inner rank of x is at most limit(position)."""
    from t3v import seq
    self._generic_k()
    rk = seq.seq_of(x.get_tt_ranks())
    for what, i in (('first', seq.Num.const(1)), ('inner', seq.A.K), ('last', seq.A.d - 1)):
      self.le('%s/%s' % (name, what), rk.get(i), limit(i))

  def modes_are(self, name, x, *stems):
    """The sizes of x are those with the given stems."""
    from t3v import seq
    raw = [seq.seq_of(s) for s in x.get_raw_shape()]
    stems = [s for s in stems if s is not None]
    self.same(name + '/kind', len(raw), len(stems))
    for j, s in enumerate(stems):
      for what, i in (('first', seq.Num.const(0)), ('inner', seq.A.K), ('last', seq.A.d - 1)):
        self.same('%s/%s-%d' % (name, what, j), raw[j].get(i), seq.nn(seq.sym(s, i)))

  def ranks_are(self, name, x, rk):
    """The rank at position k is rk(k)."""
    from t3v import seq
    self._generic_k()
    got = seq.seq_of(x.get_tt_ranks())
    for what, i in (('first', seq.Num.const(1)), ('inner', seq.A.K), ('last', seq.A.d - 1)):
      self.same('%s/%s' % (name, what), got.get(i), rk(seq.nn(i)))

  def rank_of(self, x, i):
    from t3v import seq
    return seq.rank(self._spec(x)['r'], i)

  def dense_any(self, name, n='n'):
    """A dense tensor with the sizes n[0..d-1]."""
    from t3v import seq
    A = seq.A
    t = self._dense(name, n, seq.Num.const(0))
    from t3v import tensor as X
    from t3v import sym
    return seq.Spread(X.reshape(sym._t(t), [seq.sym(n, 0) * seq.suf_size(n, 1)]), self.dtype,
                      seq.modes(n).copy('tuple'))

  def _dense(self, name, n, k, more=()):
    """The tensor as a matrix [n[0]..n[k-1], n[k]..n[d-1]] (row-major; views of
    the same data for different k); more: further axes."""
    from t3v import seq
    A = seq.A
    k = seq.Num.of(k)
    more = list(more)
    if k.same(A.K + 1):
      v = self._dense(name, n, A.K, more)
      return self.reshape(v, [seq.pre_size(n, A.K) * seq.sym(n, A.K), seq.suf_size(n, k)] + more)
    if k.same(1):
      v = self._dense(name, n, seq.Num.const(0), more)
      return self.reshape(v, [seq.sym(n, 0), seq.suf_size(n, 1)] + more)
    if k.same(A.d):
      v = self._dense(name, n, A.d - 1, more)
      return self.reshape(v, [seq.pre_size(n, A.d - 1) * seq.sym(n, A.d - 1), 1] + more)
    head = '%s@%s' % (name, k)
    a, b = seq.pre_size(n, k), seq.suf_size(n, k)
    return self.val(self._atom(head, [a, b] + more, lambda j: ('in', '%s@%s' % (name, j)), k, None, {}))

  def dense_matrix_any(self, name, n, cols):
    """A matrix with n[0] * ... * n[d-1] rows."""
    from t3v import seq, sym
    seq.A.fine.add(n)
    v = self._dense(name, n, seq.A.d, [cols])
    return self.tf.Tensor(sym._t(self.squeeze(v, 1)), self.dtype)

  def times_dense(self, a, name, cols, transposed=False):
    """(a times the matrix, k -> cores k..d-1 times the matrix [rows of the
    later cores, columns, earlier modes but one, mode k-1, r(k)])."""
    from t3v import seq
    A = seq.A
    spec = self._spec(a)
    n, m = (spec['m'], spec['n']) if transposed else (spec['n'], spec['m'])
    A.tail.add(n)
    suffix = lambda k: self.transpose(self.suffix(a, k), [0, 2, 1]) if transposed else self.suffix(a, k)

    def at(k):
      k = seq.Num.of(k)
      b = self._dense(name, m, k, [cols])
      v = self.contract([['r', 'I', 'J'], ['j', 'J', 'q']], [suffix(k), b], ['I', 'q', 'j', 'r'])
      return self.reshape(v, [seq.suf_size(n, k) * cols * seq.pre_size(m, k - 1), seq.sym(m, k - 1),
                              seq.rank(spec['r'], k)])
    b = self._dense(name, m, 0, [cols])
    want = self.contract([['r', 'I', 'J'], ['j', 'J', 'q']], [suffix(0), b], ['I', 'q', 'j', 'r'])
    return self.reshape(want, [seq.suf_size(n, 0), cols]), at

  def dense_flat(self, x, name, n='n'):
    from t3v import seq
    return self.squeeze(self._dense(name, n, seq.A.d), 1)

  def dense_sweep(self, name, x, xname, n='n', exact=True):
    from t3v import seq, sweep
    return sweep.Sweep(self, name, lambda k: self._dense(xname, n, k), True, exact, None, False, 1)

  def _generic_k(self):
    from t3v import seq
    if seq.A.witness or seq.A.open or seq.special_k():
      raise seq.Unsupported('position K is not arbitrary: %s' % (seq.A.witness,))

  def wf_any(self, name, x, dtype=None):
    """The representation invariant at every position."""
    from t3v import seq
    A = seq.A
    self._generic_k()
    cores = x.tt_cores
    if not isinstance(cores, seq.Seq):
      raise seq.Unsupported('%s does not have symbolic length' % name)
    bat, mat = self.is_batch(x), len(x.get_raw_shape()) == 2
    self.same(name + '/number-of-cores', cores.length(), A.d)
    self.same(name + '/ndims', x.ndims(), A.d)
    rk = seq.seq_of(x.get_tt_ranks())
    raw = [seq.seq_of(s) for s in x.get_raw_shape()]
    self.same(name + '/number-of-ranks', rk.length(), A.d + 1)
    for s in raw:
      self.same(name + '/number-of-sizes', s.length(), A.d)
    ok = self.same(name + '/boundary-ranks', [rk.get(0), rk.get(A.d)], [1, 1])
    dt = dtype if dtype is not None else self.dtype
    for what, i in (('first', seq.Num.const(0)), ('inner', A.K), ('last', A.d - 1)):
      c = cores.get(i)
      want = ([x.batch_size] if bat else []) + [rk.get(i)] + [s.get(i) for s in raw] + [rk.get(i + 1)]
      ok = self.same('%s/%s-core-shape' % (name, what), list(c.shape), want) and ok
      self.same('%s/%s-core-dtype' % (name, what), c.dtype, dt)
    full = [seq.nn(seq.product(s)) for s in raw] if mat else raw[0]
    if bat:
      full = [x.batch_size] + full
    got = x.get_shape()
    if mat:
      self.same(name + '/shape', list(got), full)
    else:
      self.true(name + '/shape', seq.seq_eq(seq.seq_of(got), full))
    self._generic_k()
    return ok

  def chain(self, name, x, want, inv, dtype=None):
    """x is well formed and stands for `want` (axes [batch?, N, M?]), by
    induction over the cores: inv(k) is the product of the first k."""
    from t3v import seq
    A = seq.A
    if not self.wf_any(name, x, dtype):
      self.stop('malformed result')
    bat, mat = self.is_batch(x), len(x.get_raw_shape()) == 2
    cores = x.tt_cores
    core = lambda i: self.val(cores.get(i))
    self.eq(name + '/value/first-core', self.squeeze(core(seq.Num.const(0)), 1 if bat else 0), inv(seq.Num.const(1)))
    self.eq(name + '/value/inner-core', self.extend(inv(A.K), core(A.K), bat, mat), inv(A.K + 1))
    last = self.extend(inv(A.d - 1), core(A.d - 1), bat, mat)
    self.eq(name + '/value/last-core', self.squeeze(last, last.ndim - 1), want)
    self._generic_k()

  def chain_left(self, name, x, want, inv, dtype=None):
    """The same from the last core to the first: inv(k) is the product of the
    cores k..d-1, axes [batch?, r(k), N, M?]."""
    from t3v import seq
    A = seq.A
    if not self.wf_any(name, x, dtype):
      self.stop('malformed result')
    bat, mat = self.is_batch(x), len(x.get_raw_shape()) == 2
    cores = x.tt_cores
    core = lambda i: self.val(cores.get(i))
    c = core(A.d - 1)
    self.eq(name + '/value/last-core', self.squeeze(c, c.ndim - 1), inv(A.d - 1))
    self.eq(name + '/value/inner-core', self.extend_left(core(A.K), inv(A.K + 1), bat, mat), inv(A.K))
    first = self.extend_left(core(seq.Num.const(0)), inv(seq.Num.const(1)), bat, mat)
    self.eq(name + '/value/first-core', self.squeeze(first, 1 if bat else 0), want)
    self._generic_k()

  def spread(self, name, x, dims, want):
    """A dense result: its shape and its flattened value."""
    from t3v import seq
    if not isinstance(x, seq.Spread):
      raise seq.Unsupported('%s is not a tensor of symbolic rank' % name)
    self.true(name + '/shape', seq.seq_eq(x.dims, seq.seq_of(dims)))
    n = 1
    for s in want.shape:
      n = n * s
    from t3v import sym
    self.eq(name + '/value', sym.V(x.base), self.reshape(want, [n]))
    self._generic_k()

  def finish_any(self):
    from t3v import seq
    if not getattr(self, 'anyd', False):
      return
    for i, (x, cores, raw, rk, version) in enumerate(self.frames_any):
      self.true('frame/argument-%d-cores' % i, x._tt_cores is cores and cores.version == version)
      self.true('frame/argument-%d-shape' % i, x._raw_shape is raw)
      self.true('frame/argument-%d-ranks' % i, x._tt_ranks is rk)


# -- concrete backend -------------------------------------------------------------
class ConAny(object):

  def any(self):
    if '#d' not in self.env:
      self.env['#d'] = int(self.rng('any').integers(3, 5 if self.hi > 2 else 6))
    self.d = self.env['#d']
    return self.d

  def at_k(self):
    if '#K' not in self.env:
      self.env['#K'] = int(self.rng('at').integers(1, self.d - 1))
    return self.env['#K']

  def modes_any(self, stem):
    if isinstance(stem, list):
      return stem
    return [self.dim('%s[%d]' % (stem, i)) if isinstance(stem, str) else stem for i in range(self.d)]

  def total_any(self, stem):
    return self.prod(self.modes_any(stem))

  def core(self, x, i):
    return self.cores_of(x)[i]

  def size_any(self, stem, i):
    return self.modes_any(stem)[i]

  def cores_any(self, name, kind, batch):
    return list(self.tt_any(name, kind, batch).tt_cores)

  def put(self, xs, i, v):
    xs = list(xs)
    xs[i] = v
    return xs

  def index_any(self, name, dims, n, first=None):
    return self.index_tensor(name, dims, ([] if first is None else [first]) + self.modes_any(n))

  def elements_any(self, a, idx):
    return self.gather_multi(self.den(a), 0, self.columns(idx)), None

  def fold(self, name, term, op):
    def at(k):
      v = term(0)
      for i in range(1, k):
        v = op(v, term(i))
      return v
    return at

  def chain_with(self, name, x, holds, like, dtype=None):
    if self.wf(name, x, dtype):
      holds('all-cores', self.d, self.flat(x)[..., None])
    else:
      self.stop('malformed result')

  def prefix(self, x, k, batch=None):
    return self.flat(x, batch)[..., None]

  def first_any(self, stem, k):
    return self.prod(self.modes_any(stem)[:k])

  def ranks_any(self, stem):
    if isinstance(stem, list):
      return stem
    if not isinstance(stem, str):
      return [1] + [stem] * (self.d - 1) + [1]
    return [1] + [self.dim('%s[%d]' % (stem, i)) for i in range(1, self.d)] + [1]

  def tt_any(self, name, kind='tensor', batch=None, n='n', m='m', r=None, dtype=None, **info):
    if info.get('spd') or info.get('dominant'):
      ns, bs = self.modes_any(n), [] if batch is None else [self.dim(batch)]
      cores = [self.tensor('%s[%d]' % (name, i), bs + [1, k, k, 1], matrix_shape=bs + [k, k], **info)
               for i, k in enumerate(ns)]
      return self.tt_from_cores(cores, ns, ns, [1] * (self.d + 1), bs[0] if bs else None)
    return self.tt(name, kind=kind, batch=batch, n=self.modes_any(n), m=self.modes_any(m) if kind == 'matrix' else None,
                   r=self.ranks_any(r or name + '_r'), dtype=dtype, **info)

  def flat_value(self, v, bat, mat):
    s = list(v.shape)
    o = 1 if bat else 0
    n = s[o:]
    if mat:
      h = len(n) // 2
      return self.reshape(v, s[:o] + [self.prod(n[:h]), self.prod(n[h:])])
    return self.reshape(v, s[:o] + [self.prod(n)])

  def flat(self, x, batch=None):
    bat = self.is_batch(x)
    v = self.flat_value(self.den(x), bat, self.is_matrix(x))
    if batch is not None and not bat:
      v = v[None]
    if batch is not None and v.shape[0] == 1:
      v = self.np.concatenate([v] * int(batch))
    return v

  def flat_left(self, x):
    return self.flat(x)

  @contextlib.contextmanager
  def invariants(self, *gs):
    yield

  def wf_any(self, name, x, dtype=None):
    return self.wf(name, x, dtype)

  def chain(self, name, x, want, inv, dtype=None):
    if self.wf(name, x, dtype):
      self.eq(name + '/value', self.flat(x), want)
    else:
      self.stop('malformed result')

  chain_left = chain

  def sweep(self, name, x, left=True, exact=True):
    return _Ghost()

  sweeps = invariants

  @contextlib.contextmanager
  def orthogonalized(self, space=None):
    yield []

  def dense_any(self, name, n='n'):
    return self.tensor(name, self.modes_any(n))

  def dense_matrix_any(self, name, n, cols):
    return self.tensor(name, [self.total_any(n), cols])

  def times_dense(self, a, name, cols, transposed=False):
    v = self.flat(a)
    m, b = (v.shape[0] if transposed else v.shape[1]), None
    b = self.val(self.tensor(name, [m, cols]))
    return self.np.matmul(v.T if transposed else v, b), None

  def dense_flat(self, x, name, n='n'):
    return self.np.reshape(self.val(x), -1)

  def dense_sweep(self, name, x, xname, n='n', exact=True):
    return _Ghost()

  def projected_left(self, q, r):
    return self.flat(r)

  @contextlib.contextmanager
  def sums(self, cap, related=None):
    yield None

  @contextlib.contextmanager
  def batch_sums(self, cap, a, size, weigh, columns=None):
    yield None

  def value_of(self, log, x):
    return self.flat(x)

  def last_level(self, name, log, r, columns=None):
    return self.flat(r)

  def called(self, log, a):
    return a

  def orthonormal_prefix(self, o):
    pass

  def interfaces(self, log, x):
    return None, None

  def tangent_space(self, kind):
    r, n = self.ranks_any('x_r'), self.modes_any('n')
    if kind == 'matrix':
      n = [a * b for a, b in zip(n, self.modes_any('m'))]
    # attainable ranks
    for k in range(1, self.d):
      r[k] = min(r[k], r[k - 1] * n[k - 1])
    for k in range(self.d - 1, 0, -1):
      r[k] = min(r[k], n[k] * r[k + 1])
    x = self.tt_any('x', kind, r=r)
    l = self.t3f.orthogonalize_tt_cores(x)
    return x, l, self.t3f.orthogonalize_tt_cores(l, left_to_right=False)

  def residual(self, name, p, x, z):
    from t3v.contracts.tangent import Frame
    f = Frame(self, x)
    ws = [self.tensor('w[%d]' % k, list(l.shape)[:-1] + [r.shape[-1]]) for k, (l, r) in enumerate(zip(f.L, f.R))]
    w = f.tangent([self.val(t) for t in ws])
    self.eq(name, self.inner(self.den(p.r), w), self.inner(self.den(z), w))

  def whole(self, p):
    return self.flat(p.y)

  def tangent_of(self, space, ds, bs):
    from t3v.contracts.tangent import Frame
    v = Frame(self, space[0]).tangent([self.val(t) for t in ds], bool(bs))
    return self.flat_value(v, bool(bs), self.is_matrix(space[0])), None

  def deltas_are(self, name, ds, space, p):
    self.same(name + '/count', len(ds), self.d)
    self.eq(name + '/describe', self.tangent_of(space, ds, p.bs)[0], self.flat(p.y))

  def free_cores(self, space, name, bs):
    return [self.tensor('%s[%d]' % (name, k), bs + [int(i) for i in c.shape])
            for k, c in enumerate(space[1].tt_cores)]

  def tangent_vector(self, space, name, bs):
    z = self.tt_any(name, 'matrix' if self.is_matrix(space[0]) else 'tensor', 'B' if bs else None)
    return Tangent(self.t3f.project(z, space[0]), bs=bs)

  def in_left(self, log, x, z):
    return None

  in_right = in_left

  def late(self, make):
    return _Ghost()

  def ranks_within(self, a, limit):
    for k, r in enumerate(a.get_tt_ranks()):
      self.require('<=', r, limit(k))

  def caps_any(self, stem):
    caps = [self.dim('%s[%d]' % (stem, i)) for i in range(1, self.d)]
    for c in caps:
      self.require('<=', 2, c)
    return [1] + caps + [1]

  def projected(self, q, r):
    return self.flat(r)

  def orthonormal_any(self, name, x, left=True):
    from t3v.contracts.decomp import orthogonal
    orthogonal(self, name, x, 'right' if left else 'left', self.d - 1 if left else 0)

  def rank_limit_any(self, name, x, limit):
    for k in range(1, self.d):
      self.le('%s/%d' % (name, k), x.get_tt_ranks()[k], limit(k))

  def modes_are(self, name, x, *stems):
    self.same(name, [list(s) for s in x.get_raw_shape()], [self.modes_any(s) for s in stems if s is not None])

  def ranks_are(self, name, x, rk):
    self.same(name, list(x.get_tt_ranks()), [1] + [rk(k) for k in range(1, self.d)] + [1])

  def rank_of(self, x, i):
    return x.get_tt_ranks()[i]

  def spread(self, name, x, dims, want):
    self.same(name + '/shape', list(x.shape), [int(i) for i in dims])
    self.eq(name + '/value', self.np.reshape(self.val(x), -1), self.np.reshape(self.val(want), -1))

  def finish_any(self):
    pass


class _Values(object):
  """The values of the objects that stand-ins have returned."""

  def __init__(self):
    self.count, self.xs, self.rounded, self.state = 0, [], None, None

  def of(self, x):
    for y, v in self.xs:
      if y is x:
        return v

  def set(self, x, v):
    self.xs.append((x, v))


class Tangent(object):
  """A tangent vector y; at(k): the part of the first k cores in which one is
  varied."""

  def __init__(self, y, variation=None, at=None, bs=()):
    self.y, self.variation, self.at, self.bs = y, variation, at, bs


def Num0():
  from t3v.num import Num
  return Num.const(0)


class _Ghost(object):
  """Ghost values have no concrete counterpart."""

  def __getattr__(self, name):
    return None


def install(cls, mixin):
  for k, v in vars(mixin).items():
    if not k.startswith('__'):
      setattr(cls, k, v)
