"""Loops over sequences of symbolic length, decided by induction.

The extraction turns every `for` loop of a function into

    L = t3v_loop_(ITERABLE)
    for TARGET in L:
      if L.sym_: (names) = L.head_(locals(), ...)
      BODY
    if L.sym_: (names) = L.exit_(locals(), ...)

(names: the variables the body assigns or changes).  Over an ordinary iterable
this is the loop as written.  Over a sequence of symbolic length the body runs
once for every position outside 1..d-2 and once for position K:

  * a variable that is read before it is assigned in the body is replaced by an
    invariant of the contract; its value before the zone must be the instance
    for the first position, and the value after the body the instance for the
    next one (loop-invariant obligations);
  * a list that the body appends one element to becomes a Seq, likewise a list
    whose element K is stored;
  * a list whose next element is stored carries that element: it needs an
    invariant, too;
  * every other assigned variable is unknown at the start of the body and after
    the zone.

Anything else (break, two elements per iteration, ...) is outside the accepted
subset: the obligations of that contract are reported as not discharged.
"""
import ast
import builtins
import itertools

from t3v import ctx as C
from t3v import num, seq
from t3v import tensor as X
from t3v.num import Num, Unsupported
from t3v.seq import A, Part, Range, Seq, View, is_seq, known, nn, seq_of


class Poison(object):
  """A value that the cut of a loop leaves unknown."""

  def __init__(self, name):
    object.__setattr__(self, 'name_', name)

  def _no(self, *a, **k):
    raise Unsupported('no invariant for the loop variable %s' % object.__getattribute__(self, 'name_'))

  def __getattr__(self, n):
    self._no()
  __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __contains__ = _no
  __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
  __neg__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __matmul__ = __pow__ = __rpow__ = _no
  __setattr__ = __hash__ = __float__ = __int__ = __index__ = __mod__ = __floordiv__ = __abs__ = _no


class Plain(object):
  sym_ = False

  def __init__(self, it):
    self.it = it

  def __iter__(self):
    return iter(self.it)

  def break_(self):
    pass


class Loop(object):
  sym_ = True

  def __init__(self, it):
    if isinstance(it, Range):
      first, last = it.bounds()
      self.step, self.value = it.step, nn
    else:
      s, self.step = (it.seq, it.step) if isinstance(it, View) else (seq_of(it), 1)
      first, last = s.span() if self.step == 1 else s.span()[::-1]
      self.value = s.at
    self.phases = seq.phases(first, last, self.step)
    if any(p[0] == 'gen' for p in self.phases):
      seq.generic()
    self.n = -1
    self.serial = A.loops
    A.loops += 1

  def __iter__(self):
    for k, ph in enumerate(self.phases):
      self.n = k
      yield self.value(ph[1] if ph[0] == 'one' else A.K)
    self.n = len(self.phases)

  def break_(self):
    raise Unsupported('break in a loop over a sequence of symbolic length')

  def before(self):
    """Number of iterations of the zone before the one for K."""
    return A.K - 1 if self.step == 1 else A.d - 2 - A.K

  def point(self, what):
    """Argument of the invariants on entry to the zone, at the start of the
    body, after it, and after the zone."""
    if self.step == 1:
      return {'entry': Num.const(1), 'head': A.K, 'post': A.K + 1, 'exit': A.d - 1}[what]
    return {'entry': A.d - 1, 'head': A.K + 1, 'post': A.K, 'exit': Num.const(1)}[what]

  def first(self):
    """The position of the zone that is visited first."""
    return Num.const(1) if self.step == 1 else A.d - 2

  def next(self, i):
    return i + self.step

  # -- hooks called by the instrumented loop
  def head_(self, env, names, live, targets):
    vals = dict(env)
    if self.n == 0:
      for v in names:
        if v in env and type(env[v]) is list:
          same = [w for w in env if w != v and env[w] is env[v]]
          if same:
            raise Unsupported('%s is an alias of %s' % (v, same[0]))
          vals[v] = _listify(env[v])
      for s in _seqs(vals, names):
        s.touched = (self, [])
    if self.n > 0 and self.phases[self.n - 1][0] == 'gen':
      self._close(vals, names)
    if self.phases[self.n][0] == 'gen':
      self._open(vals, names, live)
    return tuple(vals[v] if v in vals else Poison(v) for v in names)

  def exit_(self, env, names, live, targets):
    vals = dict(env)
    last = bool(self.phases) and self.phases[-1][0] == 'gen'
    if last:
      self._close(vals, names)
    for s in _seqs(vals, names):
      s.touched = None
    for t in targets:
      if last or t not in vals:
        vals[t] = Poison(t)
    return tuple(vals[v] if v in vals else Poison(v) for v in tuple(names) + tuple(targets))

  # -- the zone
  def _open(self, vals, names, live):
    self.inv = {}
    self.lists = []
    state = {}
    self.snap = [(x, builtins.list(x)) for x in vals.values() if type(x) is list] + \
        [(x, builtins.dict(x)) for x in vals.values() if type(x) is dict]
    for v in names:
      x = vals.get(v)
      if v not in live:
        self.inv[v] = ('unset', Poison(v), x if v in vals else None, v in vals)
        vals[v] = self.inv[v][1]
      elif isinstance(x, Seq):
        self._enter(v, x, state)
      elif type(x) is list and any(isinstance(y, Seq) for y in x):
        for i, y in enumerate(x):
          if not isinstance(y, Seq):
            raise Unsupported('list of lists')
          self._enter('%s[%d]' % (v, i), y, state)
      elif v in vals and not isinstance(x, Poison):
        state[v] = x
      else:
        self.inv[v] = ('unset', Poison(v), x if v in vals else None, v in vals)
        vals[v] = self.inv[v][1]
    start = {}
    for g in A.ghosts:
      got = g.enter(self, {v: x for v, x in state.items() if v not in start}, self.lists)
      for v, x in (got or {}).items():
        self.inv[v] = ('ghost', g)
        start[v] = x
        A.record('loop-invariant-on-entry/%s' % v, 'proved', '')
    for v, x in state.items():
      if v not in start:
        start[v] = self._havoc(v, x)
    for v, s in self.lists:
      if s.past is None and not s.slot and not s._size().is_const():
        s.past = self._stored(v, s)
      if s.slot:
        s.written = [(A.K, start[s.slot])]
    self.before_ = start
    for v, x in start.items():
      if v in names:
        vals[v] = x
    A.open = self

  def _enter(self, v, s, state):
    if any(s is q for _, q in self.lists):
      raise Unsupported('alias of a list')
    s.slot = None
    carried = s.touched is not None and s.touched[0] is self and \
        any(p.same(self.first()) for p in s.touched[1])
    value = s.get(self.first()) if carried else None
    if s.kind == 'tuple':
      raise Unsupported('a tuple of symbolic length is rebuilt')
    s.mark, s.added, s.written, s.past = self, [], [], None
    if carried:
      s.slot = '%s[.]' % v
      state[s.slot] = value
    self.lists.append((v, s))

  def _stored(self, v, s):
    """The tensors that earlier iterations have stored, one per position."""
    from t3v import symtf
    at, shift = (Num.const(0), 1) if self.step == 1 else (A.d - 1, 0)
    if s.touched is None or s.touched[0] is not self or not any(p.same(at) for p in s.touched[1]):
      return None
    x = s._get(at)
    if isinstance(x, symtf.Tensor):
      for g in A.cand:
        how = g.enter(self, v, x, False)
        if how is not None:
          A.record('loop-invariant-on-entry/%s' % v, 'proved', '')
          return lambda i: g.value(self, Num.of(i) + shift, how, x)
    return None

  def _havoc(self, v, x):
    """The value of v at the start of the body."""
    from t3v import symtf
    if x is None or isinstance(x, (bool, str, symtf.DType)):
      self.inv[v] = ('const', x)
      return x
    for g, loose in [(g, False) for g in A.cand] + [(g, True) for g in A.cand]:
      how = g.enter(self, v, x, loose)
      if how is not None:
        self.inv[v] = ('cand', g, how)
        A.record('loop-invariant-on-entry/%s' % v, 'proved', '')
        return g.at(self, 'head', how, x)
    if not isinstance(x, (list, dict, set, Seq, View)) and \
        (('unknown', self.serial), v) not in num.CTX.defs:
      self.inv[v] = ('const', x)  # must not change
      return x
    return Poison(v)

  def _keep(self, v, x):
    """Checks the invariant after the body; the value after the zone."""
    if v not in self.inv:
      return Poison(v)
    kind = self.inv[v]
    if kind[0] == 'unset':
      # unchanged unless the body assigns it
      return kind[2] if kind[3] and x is kind[1] else Poison(v)
    if kind[0] == 'const':
      if not (x is kind[1] or seq.equal(x, kind[1])):
        # try again with an unknown value
        raise C.Define(('unknown', self.serial), v)
      return x
    if kind[0] == 'ghost':
      return self.after[v]
    g, how = kind[1], kind[2]
    ok = not isinstance(x, Poison) and g.holds(self, v, how, x)
    A.record('loop-invariant/%s' % v, 'proved' if ok else 'unknown', '' if ok else 'not preserved')
    if not ok:
      raise Unsupported('the invariant of %s is not preserved' % v)
    return g.at(self, 'exit', how, x)

  def _close(self, vals, names):
    A.open = None
    for obj, old in self.snap:
      same = len(obj) == len(old) and (all(x is y for x, y in zip(obj, old)) if type(obj) is list else
                                       all(k in obj and obj[k] is old[k] for k in old))
      if not same:
        raise Unsupported('a list is changed inside the loop')
    self._ghosts(vals, names)
    done = []
    for v in names:
      x = vals.get(v)
      if v in self.inv and self.inv[v][0] == 'unset':
        vals[v] = self._keep(v, x)
      elif isinstance(x, Seq):
        self._settle(v, x)
        done.append(x)
      elif type(x) is list and any(isinstance(y, Seq) for y in x):
        for i, y in enumerate(x):
          self._settle('%s[%d]' % (v, i), y)
          done.append(y)
      else:
        vals[v] = self._keep(v, x)
    for v, s in self.lists:
      if not any(s is q for q in done):
        # rebound by the body; the old object keeps its mark and cannot be used
        pass

  def _ghosts(self, vals, names):
    """The invariants that relate several variables, after the body."""
    self.after = {}
    post = {v: vals.get(v) for v in names}
    for v, s in self.lists:
      if s.slot:
        nxt = self.next(A.K)
        there = [x for p, x in s.written if p.same(nxt)]
        if len(there) != 1:
          raise Unsupported('stores to %s' % v)
        post[s.slot] = there[0]
    gs = []
    for kind in self.inv.values():
      if kind[0] == 'ghost' and not any(kind[1] is g for g in gs):
        gs.append(kind[1])
    for g in gs:
      mine = [v for v, kind in self.inv.items() if kind == ('ghost', g)]
      try:
        self.after.update(g.leave(self, {v: post[v] for v in mine}, self.lists))
      except Unsupported as e:
        A.record('loop-invariant/%s' % ','.join(mine), 'unknown', str(e))
        raise
      for v in mine:
        A.record('loop-invariant/%s' % v, 'proved', '')

  def _settle(self, v, s):
    """The list after all iterations of the zone."""
    if s.mark is not self:
      raise Unsupported('%s is another list after the body' % v)
    added, written, slot = s.added, s.written, s.slot
    s.mark, s.added, s.written, s.slot = None, [], [], None
    if added:
      if len(added) != 1 or written:
        raise Unsupported('%d elements appended per iteration' % len(added))
      n, d = s.length(), A.d
      to_k = (lambda i: i - n + 1) if self.step == 1 else (lambda i: d - 2 - (i - n))
      s.parts = s.parts + [Part(n, n + d - 3, seq.formula(added[0], to_k))]
      return
    if not written:
      return
    nxt = self.next(A.K)
    here = [x for p, x in written if p.same(A.K)]
    there = [x for p, x in written if p.same(nxt)]
    if len(here) + len(there) != len(written) or bool(there) != bool(slot):
      raise Unsupported('stores to %s' % v)
    lo, hi = Num.const(1), A.d - 2
    if not slot:
      f = seq.formula(here[0])
      if s.past is not None:
        if not seq.equal(here[0], nn(s.past(A.K))):
          raise Unsupported('the invariant of %s is not preserved' % v)
        f, s.past = (lambda g: lambda i: nn(g(Num.of(i))))(s.past), None
      s.parts = seq.store(s.parts, Part(lo, hi, f))
      return
    if slot not in self.inv:
      raise Unsupported('no invariant for the element of %s handed on' % v)
    kind = self.inv[slot]
    after = self._keep(slot, there[0])
    end = A.d - 1 if self.step == 1 else Num.const(0)
    parts = seq.store(s.parts, seq.one(end, after))
    if kind[0] == 'cand' and here[0] is self.before_[slot]:
      # element K is not changed by its own iteration
      g, how = kind[1], kind[2]
      f = lambda i: g.value(self, i, how, here[0])
    elif kind[0] == 'ghost' and num.is_number(here[0]) and here[0] is self.before_[slot]:
      f = lambda i: nn(kind[1].rho(Num.of(i)))
    else:
      f = seq.formula(here[0])
    s.parts = seq.store(parts, Part(lo, hi, f))


def _seqs(vals, names):
  out = []
  for v in names:
    x = vals.get(v)
    if isinstance(x, Seq):
      out.append(x)
    elif type(x) is list:
      out += [y for y in x if isinstance(y, Seq)]
  return out


def _listify(x):
  if x and all(type(y) is list for y in x):
    x[:] = [Seq.of(y) for y in x]
    return x
  if any(isinstance(y, Seq) for y in x):
    return x
  return Seq.of(x)


# -- invariants ---------------------------------------------------------------
def _total(t):
  n = Num.const(1)
  for s in t.sizes():
    n = n * s
  return n


class Invariant(object):
  """A value given as a function g of the position, in any order of its axes
  or, failing that, in any shape."""

  def __init__(self, g):
    self.g = g
    self.last = None

  def raw(self, k):
    """g(k) as a number or T; None when it has no value there."""
    from t3v import sym
    try:
      x = self.g(nn(Num.of(k)))
    except (Unsupported, X.InvalidArgument):
      return None
    return x if x is None or num.is_number(x) else sym._t(x)

  def enter(self, loop, v, x, loose):
    from t3v import symgrad, symtf
    w = self.raw(loop.point('entry'))
    if w is None:
      return None
    if num.is_number(w) or num.is_number(x):
      if num.is_number(w) and num.is_number(x) and known('==', Num.of(w) - Num.of(x)) is True:
        return ('num',)
      return None
    if not isinstance(x, symtf.Tensor) or isinstance(x, seq.Loose):
      return None
    t = symgrad.resolve(x.T_)
    hows = [('perm', p) for p in itertools.permutations(range(w.rank))] if w.rank == t.rank <= 6 else []
    for how in [('flat',)] if loose else hows:
      if self._is(w, how, t):
        return how
    return None

  def _is(self, w, how, t):
    try:
      if how[0] == 'perm':
        w = X.permute(w, list(how[1]))
        if not all(known('==', a - b) is True for a, b in zip(w.sizes(), t.sizes())):
          return False
      else:
        if known('==', _total(w) - _total(t)) is not True:
          return False
        w = X.reshape(w, t.sizes())
      return X.difference(t, w) is None
    except (X.InvalidArgument, Unsupported):
      return False

  def value(self, loop, k, how, like):
    from t3v import symtf
    w = self.raw(k)
    if w is None:
      raise Unsupported('the invariant has no value at %s' % k)
    if how[0] == 'num':
      return nn(Num.of(w))
    if how[0] == 'perm':
      return symtf.Tensor(X.permute(w, list(how[1])), like.dtype)
    return seq.Loose(w, like.dtype)

  def at(self, loop, what, how, like):
    self.last = self.value(loop, loop.point(what), how, like)
    return self.last

  def holds(self, loop, v, how, x):
    from t3v import symgrad, symtf
    w = self.raw(loop.point('post'))
    if w is None:
      return False
    if how[0] == 'num':
      return num.is_number(x) and known('==', Num.of(w) - Num.of(x)) is True
    if not isinstance(x, symtf.Tensor):
      return False
    if isinstance(x, seq.Loose):
      return False
    return self._is(w, how, symgrad.resolve(x.T_))


# -- builtins -----------------------------------------------------------------
def len_(x):
  if is_seq(x):
    return nn(x.length())
  return builtins.len(x)


def range_(*a):
  if any(seq.symbolic(x) for x in a):
    start, stop, step = (0, a[0], 1) if builtins.len(a) == 1 else (a if builtins.len(a) == 3 else (a[0], a[1], 1))
    return Range(start, stop, step)
  return builtins.range(*a)


def enumerate_(x, start=0):
  if is_seq(x):
    s = seq_of(x)
    return View(Seq([Part(0, s.length() - 1, lambda i: (nn(Num.of(i) + start), s.get(i)))], 'iter', s.off))
  return builtins.enumerate(x, start)


def zip_(*xs):
  if any(is_seq(x) for x in xs):
    return View(seq.zip_([seq_of(x) for x in xs]))
  return builtins.zip(*xs)


def reversed_(x):
  if isinstance(x, Range):
    a, b = x.bounds()
    return Range(b, a - x.step, -x.step)
  if isinstance(x, View):
    return View(x.seq, -x.step)
  if is_seq(x):
    return View(seq_of(x), -1)
  return builtins.reversed(x)


def list_(x=()):
  return seq_of(x).copy('list') if is_seq(x) else builtins.list(x)


def tuple_(x=()):
  return seq_of(x).copy('tuple') if is_seq(x) else builtins.tuple(x)


def sum_(x, start=0):
  if is_seq(x):
    raise Unsupported('sum of a sequence of symbolic length')
  return builtins.sum(x, start)


def any_(x):
  if isinstance(x, seq.Many):
    return x.any()
  return seq.any_of(seq_of(x), builtins.bool) if is_seq(x) else builtins.any(x)


def all_(x):
  if isinstance(x, seq.Many):
    return x.all()
  return seq.all_of(seq_of(x), builtins.bool) if is_seq(x) else builtins.all(x)


def reduce_(fn, xs, *init):
  import functools
  if not is_seq(xs):
    return functools.reduce(fn, xs, *init)
  a, b = Num.sym('#x'), Num.sym('#y')
  r = fn(a, b)
  if isinstance(r, Num) and r.same(a * b) and (not init or Num.of(init[0]).same(1)):
    return nn(seq.product(xs))
  raise Unsupported('reduce over a sequence of symbolic length')


reduce = reduce_


def loop_(it):
  return Loop(it) if is_seq(it) else Plain(it)


def comp_(fn, it, star):
  call = (lambda x: fn(*x)) if star else fn
  if is_seq(it):
    return seq.comprehension(call, it)
  return [call(x) for x in it]


def gen_(fn, it, star):
  call = (lambda x: fn(*x)) if star else fn
  if isinstance(it, seq.Many):
    return seq.Many([seq.comprehension(call, s) for s in it.seqs])
  if is_seq(it):
    return View(seq.comprehension(call, it))
  return (call(x) for x in it)


def repeat_(xs, n):
  """[x] * n for symbolic n."""
  if builtins.len(xs) != 1:
    raise Unsupported('repetition')
  x = xs[0]
  return Seq([Part(0, Num.of(n) - 1, lambda i: x)])


OVERRIDES = {'len': len_, 'range': range_, 'enumerate': enumerate_, 'zip': zip_, 'reversed': reversed_,
             't3v_list_': list_, 't3v_tuple_': tuple_, 'sum': sum_, 'any': any_, 'all': all_,
             't3v_loop_': loop_, 't3v_comp_': comp_, 't3v_gen_': gen_}


# -- source transformation ----------------------------------------------------
def _names(target):
  return {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}


_MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'clear', 'sort', 'update', 'setdefault', 'add')


class _Scope(ast.NodeVisitor):
  """Names assigned or changed by statements, without nested functions."""

  def __init__(self):
    self.stored, self.mutated, self.opaque = set(), set(), False

  def visit_FunctionDef(self, n):
    self.stored.add(n.name)

  def visit_Lambda(self, n):
    pass

  def visit_Name(self, n):
    if isinstance(n.ctx, (ast.Store, ast.Del)):
      self.stored.add(n.id)

  def _base(self, b):
    while isinstance(b, ast.Subscript):
      b = b.value
    if isinstance(b, ast.Name):
      self.mutated.add(b.id)
    else:
      self.opaque = True

  def visit_Subscript(self, n):
    if isinstance(n.ctx, (ast.Store, ast.Del)):
      self._base(n.value)
    self.generic_visit(n)

  def visit_Attribute(self, n):
    if isinstance(n.ctx, (ast.Store, ast.Del)):
      self.opaque = True
    self.generic_visit(n)

  def visit_Call(self, n):
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr in _MUTATORS:
      b = f.value
      while isinstance(b, ast.Subscript):
        b = b.value
      if isinstance(b, ast.Name):
        self.mutated.add(b.id)
    self.generic_visit(n)

  def visit_Global(self, n):
    self.opaque = True
  visit_Nonlocal = visit_Global


def scope(stmts):
  s = _Scope()
  for x in stmts:
    s.visit(x)
  return s


def _reads(node):
  return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def live_in(stmts, assigned=frozenset()):
  """(names that may be read before they are assigned, names surely assigned
  or None when the end is not reached)."""
  live, asg = set(), set(assigned)
  for s in stmts:
    if isinstance(s, ast.Assign):
      live |= _reads(s.value) - asg
      for t in s.targets:
        live |= _reads(t) - asg
      for t in s.targets:
        asg |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    elif isinstance(s, ast.AugAssign):
      live |= (_reads(s.value) | _names(s.target)) - asg
    elif isinstance(s, ast.If):
      live |= _reads(s.test) - asg
      l1, a1 = live_in(s.body, asg)
      l2, a2 = live_in(s.orelse, asg)
      live |= l1 | l2
      if a1 is None and a2 is None:
        return live, None
      asg = (a1 & a2) if a1 is not None and a2 is not None else (a1 if a2 is None else a2)
    elif isinstance(s, ast.With):
      for i in s.items:
        live |= _reads(i.context_expr) - asg
      l1, a1 = live_in(s.body, asg)
      live |= l1
      if a1 is None:
        return live, None
      asg = a1
    elif isinstance(s, (ast.Raise, ast.Return)):
      live |= _reads(s) - asg
      return live, None
    elif isinstance(s, (ast.Continue, ast.Break)):
      return live, None
    elif isinstance(s, ast.For):
      live |= _reads(s.iter) - asg
      live |= live_in(s.body, asg | _names(s.target))[0] | live_in(s.orelse, asg)[0]
    else:
      live |= _reads(s) - asg
  return live, asg


class Cut(ast.NodeTransformer):

  def __init__(self):
    self.stack = []
    self.n = 0

  def visit_FunctionDef(self, node):
    a = node.args
    local = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]}
    self.stack.append(local | scope(node.body).stored)
    self.generic_visit(node)
    self.stack.pop()
    return node

  def visit_For(self, node):
    if not self.stack:
      return self.generic_visit(node)
    sc = scope(node.body)
    targets = sorted(_names(node.target))
    names = sorted((sc.stored | (sc.mutated & self.stack[-1])) - set(targets))
    if set(targets) & sc.stored or node.orelse:
      sc.opaque = True
    live, _ = live_in(node.body, set(targets))
    live = sorted(live & set(names))
    self.n += 1
    var = 't3v_l%d_' % self.n
    self.generic_visit(node)

    def name(x, c=ast.Load):
      return ast.Name(id=x, ctx=c())

    def const(xs):
      return ast.Tuple(elts=[ast.Constant(value=x) for x in xs], ctx=ast.Load())

    def method(m, args):
      return ast.Call(func=ast.Attribute(value=name(var), attr=m, ctx=ast.Load()), args=args, keywords=[])

    def guarded(m, out):
      c = method(m, [ast.Call(func=name('locals'), args=[], keywords=[]), const(names), const(live), const(targets)])
      st = ast.Assign(targets=[ast.Tuple(elts=[name(x, ast.Store) for x in out], ctx=ast.Store())], value=c) \
          if out else ast.Expr(value=c)
      body = [st]
      if sc.opaque:
        body.insert(0, ast.Expr(value=method('break_', [])))
      return ast.If(test=ast.Attribute(value=name(var), attr='sym_', ctx=ast.Load()), body=body, orelse=[])
    first = ast.Assign(targets=[name(var, ast.Store)],
                       value=ast.Call(func=name('t3v_loop_'), args=[node.iter], keywords=[]))
    _mark_breaks(node.body, lambda: ast.Expr(value=method('break_', [])))
    new = ast.For(target=node.target, iter=name(var), body=[guarded('head_', names)] + node.body,
                  orelse=node.orelse, type_comment=None)
    out = [first, new, guarded('exit_', names + targets)]
    for o in out:
      ast.copy_location(o, node)
    return out

  def _comp(self, node, fname):
    self.generic_visit(node)
    if not self.stack or len(node.generators) != 1:
      return node
    g = node.generators[0]
    if g.ifs or g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node.elt)):
      return node
    if isinstance(g.target, ast.Name):
      args, star = [g.target.id], False
    elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts) and \
        len({x.id for x in g.target.elts}) == len(g.target.elts):
      args, star = [x.id for x in g.target.elts], True
    else:
      return node
    lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                        kw_defaults=[], defaults=[]), body=node.elt)
    return ast.copy_location(ast.Call(func=ast.Name(id=fname, ctx=ast.Load()),
                                      args=[lam, g.iter, ast.Constant(value=star)], keywords=[]), node)

  def visit_ListComp(self, node):
    return self._comp(node, 't3v_comp_')

  def visit_GeneratorExp(self, node):
    return self._comp(node, 't3v_gen_')

  def visit_Call(self, node):
    self.generic_visit(node)
    if isinstance(node.func, ast.Name) and node.func.id in ('list', 'tuple') and not node.keywords:
      node.func = ast.copy_location(ast.Name(id='t3v_%s_' % node.func.id, ctx=ast.Load()), node.func)
    return node


def _mark_breaks(body, make):
  i = 0
  while i < len(body):
    s = body[i]
    if isinstance(s, ast.Break):
      body.insert(i, make())
      i += 2
      continue
    if isinstance(s, (ast.For, ast.While)):
      _mark_breaks(s.orelse, make)
    elif not isinstance(s, ast.FunctionDef):
      for f in ('body', 'orelse', 'finalbody'):
        _mark_breaks(getattr(s, f, []) or [], make)
      for h in getattr(s, 'handlers', []):
        _mark_breaks(h.body, make)
    i += 1


def instrument(tree):
  return ast.fix_missing_locations(Cut().visit(tree))
