"""Symbolic backend: executes the real t3f functions on symbolic tensors and
turns every contract clause into a proof obligation."""
import contextlib
import math
import sys
import time
import traceback

import numpy as np

from t3v import ctx as C
from t3v import expr as E
from t3v import num
from t3v import seq
from t3v import symgrad
from t3v import symtf as tf
from t3v import tensor as X
from t3v.evalx import Evaluator
from t3v.num import Num, Unsupported
from t3v.tensor import InvalidArgument, T


class V(object):
  """Oracle value."""
  __array_priority__ = 300

  def __init__(self, t):
    self.t = t

  @property
  def shape(self):
    return [tf._nn(s) for s in self.t.sizes()]

  @property
  def ndim(self):
    return self.t.rank

  def __add__(self, o):
    return V(X.badd(self.t, _t(o)))
  __radd__ = __add__

  def __sub__(self, o):
    return V(X.badd(self.t, X.scale(_t(o), -1)))

  def __rsub__(self, o):
    return V(X.badd(_t(o), X.scale(self.t, -1)))

  def __neg__(self):
    return V(X.scale(self.t, -1))

  def __mul__(self, o):
    if num.is_number(o):
      return V(X.scale(self.t, Num.of(o)))
    return V(X.bmul(self.t, _t(o)))
  __rmul__ = __mul__

  def __truediv__(self, o):
    return V(X.bmul(self.t, X.reciprocal(_t(o))))


def _t(x):
  if isinstance(x, V):
    return x.t
  if isinstance(x, T):
    return x
  if isinstance(x, tf.Tensor):
    return x.T_
  if num.is_number(x):
    return X.scalar(x)
  return tf.convert_to_tensor(x).T_


class ContractStop(Exception):
  """The contract cannot continue after a failed obligation."""


class Sym(object):
  symbolic = True
  held = False

  def __init__(self, t3f, context, seed=0, dtype='float64'):
    self.t3f, self.tf, self.ctx = t3f, tf, context
    self.seed = seed
    self.obligations = []
    self.dtype = tf.as_dtype(dtype)
    self.frames = []
    self.frames_any = []
    self.anyd = False  # the number of cores is a symbol
    self.InvalidArgumentError = InvalidArgument
    self.np = np

  # -- inputs -----------------------------------------------------------------
  def dim(self, name):
    return tf._nn(self.ctx.symbol(name))

  def num(self, name):
    """A positive real python number."""
    return self.ctx.symbol('$' + name, real=True)

  def require(self, op, a, b):
    """Precondition a op b."""
    a, b = Num.of(a), Num.of(b)
    if op == '!=':
      self.ctx.require('==', a - b, False)
    elif op in ('<', '<=', '=='):
      self.ctx.require(op, a - b, True)
    else:
      raise ValueError(op)

  def sure(self, op, a, b):
    """Whether a op b holds on this path (forks if undecided)."""
    return num.decide(op, Num.of(a) - Num.of(b))

  def tensor(self, name, dims, dtype=None, **info):
    t = X.atom(('in', name), dims)
    if info:
      E.S.info.setdefault(('in', name), {}).update(info)
    return tf.Tensor(t, tf.as_dtype(dtype) if dtype else self.dtype)

  def index_tensor(self, name, dims, bounds):
    """Integer tensor dims + [len(bounds)]; column k lies in [0, bounds[k]).
    A list bound stands for the linear index of a multi-index."""
    cols = []
    for k, b in enumerate(bounds):
      parts = list(b) if isinstance(b, (list, tuple)) else [b]
      col = None
      for q, p in enumerate(parts):
        h = ('iv', name, k) if len(parts) == 1 else ('iv', name, k, q)
        E.S.info.setdefault(h, {})['range'] = Num.of(p)
        t = X.scale(X.atom(h, dims), Num.of(self.prod(parts[q + 1:])))
        col = t if col is None else X.badd(col, t)
      cols.append(tf.Tensor(col, tf.int64))
    return tf.stack(cols, axis=-1)

  def sparse(self, indices, values, shape):
    return tf.SparseTensor(indices, values, shape)

  def columns(self, idx):
    """Columns of an index tensor along its last axis."""
    return [tf.getitem(idx, (Ellipsis, k)) for k in range(int(list(idx.shape)[-1]))]

  # -- oracle arithmetic --------------------------------------------------------
  def val(self, x):
    return x if isinstance(x, V) else V(_t(x))

  def einsum(self, eq, *xs):
    lhs, out = eq.replace(' ', '').split('->')
    return V(X.contract([list(o) for o in lhs.split(',')], [_t(x) for x in xs], list(out)))

  def contract(self, ins, xs, out):
    return V(X.contract([list(i) for i in ins], [_t(x) for x in xs], list(out)))

  def reshape(self, x, dims):
    return V(X.reshape(_t(x), [Num.of(d) for d in dims]))

  def transpose(self, x, perm):
    return V(X.permute(_t(x), list(perm)))

  def expand(self, x, k):
    return V(X.expand(_t(x), k))

  def squeeze(self, x, k):
    return V(tf.squeeze(tf.Tensor(_t(x), self.dtype), axis=[k]).T_)

  def concat(self, xs, axis):
    return V(X.concat([_t(x) for x in xs], axis))

  def stack(self, xs, axis):
    return V(X.concat([X.expand(_t(x), axis) for x in xs], axis))

  def sum(self, x, axes=None):
    t = _t(x)
    return V(X.reduce_sum(t, list(range(t.rank)) if axes is None else list(axes)))

  def sqrt(self, x):
    return V(X.sqrt(_t(x)))

  def getitem(self, x, spec):
    return V(tf.getitem(tf.Tensor(_t(x), self.dtype), spec).T_)

  def gather_multi(self, x, axis, cols):
    """x indexed along consecutive axes by index tensors of equal shape."""
    return V(X.gather_multi(_t(x), axis, [_t(c) for c in cols]))

  def ones(self, dims):
    return V(X.fill([Num.of(d) for d in dims], 1))

  def full(self, dims, x):
    return V(X.fill([Num.of(d) for d in dims], x))

  def zeros(self, dims):
    return V(X.fill([Num.of(d) for d in dims], 0))

  def eye(self, n):
    return V(X.eye(Num.of(n)))

  def fn(self, name, x):
    t = _t(x)
    if name == 'abs':
      return V(X.abs_(t))
    if name == 'sign':
      return V(X.sign(t))
    if name == 'log':
      return V(X.log(t))
    if name == 'exp':
      return V(X.exp(t))
    if name == 'inv':
      return V(X.inv(t))
    if name == 'det':
      return V(X.det(t))
    if name == 'chol':
      return V(X.cholesky(t))
    if name.startswith('act_'):
      from t3v import symv1
      return V(symv1.activation(name[4:], tf.Tensor(t, self.dtype)).T_)
    raise Unsupported(name)

  def single(self):
    pass

  def pow(self, x, e):
    return V(X.pow_(_t(x), Num.of(e)))

  def in_graph(self, hide, fn, args):
    known, secret = set(), set()
    for a in args:
      if hasattr(a, 'tt_cores'):
        sizes = [list(c.shape) for c in a.tt_cores]
        shown = self.hidden_sizes(hide, a, sizes)
        pairs = [(n, m) for s, t in zip(sizes, shown) for n, m in zip(s, t)]
      else:
        pairs = [(n, None if 'dense' in hide or ('rows' in hide and i == 0) else n) for i, n in enumerate(list(a.shape))]
      for n, m in pairs:
        (secret if m is None else known).update(C.symbols_of(Num.of(n)))
    secret -= known
    try:
      tf.GRAPH['hide'] = lambda n: bool(_symbols(n) & secret)
      xs = [type(a)(list(a.tt_cores)) if hasattr(a, 'tt_cores') else a for a in args]
      out = fn(*xs)
      out = list(out) if isinstance(out, (list, tuple)) else [out]
      static = [self.static_sizes(r) if hasattr(r, 'tt_cores') else None for r in out]
    finally:
      tf.GRAPH['hide'] = None
    return [type(r)(list(r.tt_cores)) if hasattr(r, 'tt_cores') else r for r in out], static

  @contextlib.contextmanager
  def v1_graph(self):
    from t3v import symv1
    with symv1.graph():
      yield _V1Graph()

  def plain(self, x, form='array'):
    """The same values as a numpy array or a list: here any argument that can be
    converted to a tensor."""
    return x

  def array(self, xs):
    """A numpy array of numbers."""
    from t3v import symnp
    return symnp.array(xs)

  def np_array(self, xs):
    import numpy
    return numpy.array(xs)

  def gradient(self, fn, xs):
    """Gradient of scalar fn at the values xs, by the oracle."""
    ts = [tf.Tensor(_t(x), self.dtype) for x in xs]
    with symgrad.GradientTape() as tape:
      for t in ts:
        tape.watch(t)
      y = fn(*ts)
    gs = tape.gradient(y, ts)
    return [None if g is None else V(g.T_) for g in gs]

  # -- obligations --------------------------------------------------------------
  def _record(self, name, verdict, detail='', by='loop invariants'):
    if self.anyd and verdict == 'refuted':
      # no concrete number of cores is attached to the failure
      verdict = 'unknown'
    self.obligations.append({'name': name, 'verdict': verdict, 'detail': detail, 'by': by})
    return verdict == 'proved'

  def eq(self, name, got, want):
    """Obligation: the two tensors are equal for all values."""
    try:
      a, b = symgrad.resolve(_t(got)), symgrad.resolve(_t(want))
      d = X.difference(a, b)
    except InvalidArgument as e:
      return self._record(name, 'refuted', str(e))
    if d is None:
      if SELFTEST:
        self._crosscheck(name, a, b)
      return self._record(name, 'proved', by='tensor-index normaliser')
    if isinstance(d, str):
      return self._record(name, 'refuted', d)
    v, detail = self.numeric(a, b)
    return self._record(name, v, detail + ' ' + describe(d))

  def zero(self, name, got):
    return self.eq(name, got, V(T(_t(got).axes, {})))

  def _crosscheck(self, name, a, b):
    v, detail = self.numeric(a, b)
    if v == 'refuted':
      raise AssertionError('proved but numerically different: %s %s' % (name, detail))

  def numeric(self, a, b):
    for s in range(2):
      env = self.ctx.model(np.random.default_rng(self.seed + s))
      if env is None:
        return 'unknown', 'no model'
      try:
        ev = Evaluator(env, self.seed + s)
        x, y = ev.tensor(a), ev.tensor(b)
      except (Unsupported, np.linalg.LinAlgError, KeyError) as e:
        return 'unknown', 'no numeric value: %s' % e
      if x.shape != y.shape:
        return 'refuted', 'shapes %s and %s at %s' % (x.shape, y.shape, env)
      if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
        continue
      scale = max(1e-3, float(np.max(np.abs(x), initial=0)), float(np.max(np.abs(y), initial=0)))
      err = float(np.max(np.abs(x - y), initial=0))
      if err > 1e-7 * scale:
        return 'refuted', 'differs by %.3g (scale %.3g) at %s' % (err, scale, env)
    return 'unknown', 'numerically equal'

  def same(self, name, got, want):
    """Obligation on python data: numbers, lists, shapes, dtypes, None."""
    d = self._same(got, want)
    return self._record(name, 'proved' if d is None else 'refuted', d or '', 'integer arithmetic and z3')

  def _same(self, a, b):
    seq = (list, tuple, tf.TensorShape, np.ndarray)
    if isinstance(a, tf.Tensor):
      a = a.numpy()
    if isinstance(b, tf.Tensor):
      b = b.numpy()
    if isinstance(a, seq) and isinstance(b, seq) and not (isinstance(a, np.ndarray) and a.ndim == 0):
      a, b = list(a), list(b)
      if len(a) != len(b):
        return 'lengths %d and %d: %s vs %s' % (len(a), len(b), a, b)
      for x, y in zip(a, b):
        d = self._same(x, y)
        if d is not None:
          return d
      return None
    if num.is_number(a) and num.is_number(b):
      d = Num.of(a) - Num.of(b)
      return None if num.decide('==', d) else '%s is not %s' % (a, b)
    if isinstance(a, seq) != isinstance(b, seq):
      return '%r is not %r' % (a, b)
    return None if a == b else '%r is not %r' % (a, b)

  def true(self, name, cond):
    return self._record(name, 'proved' if cond else 'refuted', '' if cond else 'false', 'symbolic execution')

  def near(self, name, got, want, eps):
    """Closeness is decided by equality."""
    return self.eq(name, got, want)

  def le(self, name, a, b):
    ok = num.decide('<=', Num.of(a) - Num.of(b))
    return self._record(name, 'proved' if ok else 'refuted', '' if ok else '%s > %s' % (a, b),
                        'integer arithmetic and z3')

  def raises(self, name, exc, fn):
    try:
      r = fn()
    except exc:
      if getattr(self, 'anyd', False):
        self.after_raise()
      return self._record(name, 'proved', by='symbolic execution')
    except (C.Fork, C.Infeasible, Unsupported):
      raise
    except Exception as e:
      return self._record(name, 'refuted', 'raised %s: %s' % (type(e).__name__, str(e)[:200]))
    return self._record(name, 'refuted', 'no exception; returned %r' % (r,))

  def stop(self, why):
    raise ContractStop(why)

  def positive(self, x):
    """Assume every entry of the input is positive."""
    return x


  # -- random objects -----------------------------------------------------------
  def ratio(self, a, b):
    return Num.of(a) / Num.of(b)

  def _draws(self, name, make):
    """Cores of a random object paired with the draws they are made of:
    [(core, mean, deviation)] or None after a failed obligation."""
    start = len(tf.RANDOM['log'])
    cores = [symgrad.resolve(_t(c)) for c in make().tt_cores]
    log = list(tf.RANDOM['log'][start:])
    out = []
    for k, c in enumerate(cores):
      hit = None
      for j, (head, dims, _) in enumerate(log):
        if len(dims) == c.rank and all(X.sizes_equal(Num.of(a), b) for a, b in zip(dims, c.sizes())):
          ms = affine_in(c, head)
          if ms is not None:
            hit = (j, ms)
            break
      if hit is None:
        raise Unsupported('core %d is not an affine image of one draw' % k)
      log.pop(hit[0])
      out.append(hit[1])
    return out

  def _draws_any(self, make):
    """The same for any number of cores: [(where, mean, deviation)]; the cores
    at the inner positions must come from draws of their own iteration."""
    from t3v import seq
    start = len(tf.RANDOM['log'])
    cores = make().tt_cores
    log = list(tf.RANDOM['log'][start:])
    self._generic_k()
    out = []
    for what, i in (('first', seq.Num.const(0)), ('inner', seq.A.K), ('last', seq.A.d - 1)):
      c = symgrad.resolve(_t(cores.get(i)))
      hit = [(j, affine_in(c, head)) for j, (head, dims, inner) in enumerate(log)
             if inner == (what == 'inner') and len(dims) == c.rank and
             all(X.sizes_equal(Num.of(a), b) for a, b in zip(dims, c.sizes())) and affine_in(c, head) is not None]
      if not hit:
        raise Unsupported('the %s core is not an affine image of one draw' % what)
      log.pop(hit[0][0])
      out.append((what,) + hit[0][1])
    return out

  def _random_any(self, name, make, mean, std=None, var=None):
    from t3v import seq
    for what, m, s in self._draws_any(make):
      self.eq('%s/mean-of-the-%s-core' % (name, what), V(m), V(X.scalar(mean)))
      if var is None:
        self.eq('%s/deviation-of-the-%s-core' % (name, what), V(s), V(X.scalar(std)))
        continue
      (coef, nodes), = s.pieces[()][1]
      if nodes:
        raise Unsupported('deviation')
      # the same for all cores: Var(entry) = deviation^(2 d) * product of the ranks
      got = seq.power(coef, 2 * seq.A.d) * seq.product(make().get_tt_ranks())
      self.true('%s/entry-variance/%s' % (name, what), _same_powers(got, var))

  def random_cores(self, name, make, mean, std):
    if getattr(self, 'anyd', False):
      return self._random_any(name, make, mean, std)
    for k, (m, s) in enumerate(self._draws(name, make)):
      self.eq('%s/mean-%d' % (name, k), V(m), V(X.scalar(mean)))
      self.eq('%s/variance-%d' % (name, k), V(X.bmul(s, s)), V(X.scalar(Num.of(std) * Num.of(std))))

  def random_variance(self, name, make, var):
    """Independent zero-mean cores: Var(entry) = prod of variances * ranks."""
    if getattr(self, 'anyd', False):
      return self._random_any(name, make, 0, var=var)
    r = make()
    rs = list(r.get_tt_ranks())
    v = X.scalar(self.prod(rs))
    for k, (m, s) in enumerate(self._draws(name, make)):
      self.eq('%s/mean-%d' % (name, k), V(m), V(X.scalar(0)))
      v = X.bmul(v, X.bmul(s, s))
    self.eq('%s/entry-variance' % name, V(v), V(X.scalar(var)))

  def trains(self, layer, variables):
    return True

  # -- modular treatment of rounding ----------------------------------------------
  @contextlib.contextmanager
  def exact_rounding(self):
    """Callers of round are checked against its contract: when the rank limit
    does not bind the result is some TT-object of the same kind that stands
    for the same tensor."""
    mods = [m for n, m in sys.modules.items() if n == 't3f' or n.startswith('t3f.')]
    orig = self.t3f.decompositions.round
    log = []
    def round_(tt, max_tt_rank=None, epsilon=None, name=None):
      self.wf('round-argument-%d' % len(log), tt)
      raw = [list(s) for s in tt.get_raw_shape()]
      name = 'round%d' % len(log)
      n = len(self.frames)
      y = self.tt(name, kind='matrix' if len(raw) == 2 else 'tensor', n=raw[0], m=raw[-1],
                  batch=tt.batch_size if self.is_batch(tt) else None, dtype=tt.dtype)
      del self.frames[n:]
      log.append((tt, y))
      return y
    changed = [(m, k) for m in mods for k, v in list(vars(m).items()) if v is orig]
    for m, k in changed:
      setattr(m, k, round_)
    try:
      yield log
    finally:
      for m, k in changed:
        setattr(m, k, orig)

  def combination(self, name, log, r, want):
    """den(r) = want, given den(y) = den(x) for the logged calls y = round(x)."""
    t, w = symgrad.resolve(_t(self.den(r))), _t(want)
    bs = num.concrete(r.batch_size) if self.is_batch(r) else None
    pairs = [(name, t, w)] if bs is None else [
        ('%s-%d' % (name, i), X.index(t, 0, Num.of(i)), X.index(w, 0, Num.of(i))) for i in range(bs)]
    for n, a, b in pairs:
      self.eq(n, V(expand_rounded(self, a, log)), V(b))


def _same_powers(a, b):
  from t3v import seq
  def split(x):
    # constants such as sqrt(2.) are machine numbers
    c, out = 0., {}
    for k, e in seq.exponents(x).items():
      k = Num(dict(k))
      if k.is_const() and e.is_const():
        c += float(e.const_value()) * math.log(k.const_value())
      else:
        out[k.key] = e
    return c, out
  (c, a), (e, b) = split(a), split(b)
  return abs(c - e) < 1e-12 and set(a) == set(b) and all(a[k].same(b[k]) for k in a)


def affine_in(c, head):
  """(mean, deviation) scalars with c = mean + deviation * atom(head), or None."""
  atom = X.atom(head, c.sizes())
  if len(c.pieces) != 1 or len(atom.pieces) != 1:
    return None
  mean, std = X.scalar(0), X.scalar(0)
  for ch, (vs, terms) in c.pieces.items():
    for coef, nodes in terms:
      one = T(c.axes, {ch: (vs, [(coef, nodes)])})
      heads = [n for n in nodes if n[0] == head]
      rest = tuple(n for n in nodes if n[0] != head)
      ext = [v for g in vs for v in g]
      if any(v in E.node_vars(n) for n in rest for v in ext):
        return None
      s = T([], {(): ((), [(coef, rest)])})
      if len(heads) == 1:
        if X.difference(one, X.bmul(s, atom)) is not None:
          return None
        std = X.badd(std, s)
      elif not heads:
        mean = X.badd(mean, s)
      else:
        return None
  return mean, std


def expand_rounded(B, t, log):
  for x, y in reversed(log):
    heads = sorted(str(('in', 'round%d.%d' % ([l[1] for l in log].index(y), k))) for k in range(len(y.tt_cores)))
    vx, vy = symgrad.resolve(_t(B.den(x))), symgrad.resolve(_t(B.den(y)))
    cands = [(vx, vy)]
    if B.is_batch(y) and num.concrete(y.batch_size) is not None:
      cands = [(X.index(vx, 0, Num.of(i)), X.index(vy, 0, Num.of(i))) for i in range(num.concrete(y.batch_size))]
    out = T(t.axes, {})
    for ch, (vs, terms) in t.pieces.items():
      for coef, nodes in terms:
        one = T(t.axes, {ch: (vs, [(coef, nodes)])})
        mine = sorted(str(n[0]) for n in nodes if str(n[0]) in heads)
        if not mine:
          out = X.add(out, one)
          continue
        if mine != heads or len(nodes) != len(heads):
          raise Unsupported('rounded object used outside a sum')
        for cx, cy in cands:
          if cy.rank == one.rank and X.difference(one, X.scale(cy, coef)) is None:
            out = X.add(out, X.scale(cx, coef))
            break
        else:
          raise Unsupported('rounded object used outside a sum')
    t = out
  return t


SELFTEST = False


def describe(d):
  ch, p, q = d
  def show(p):
    if p is None:
      return '0'
    vs, terms = p
    out = []
    for c, nodes in terms[:6]:
      out.append('%s*%s' % (c, '*'.join('%s%s' % (_h(h), _a(a)) for h, a in nodes)))
    return ' + '.join(out) + (' + ...' if len(terms) > 6 else '')
  return '[block %s: got %s; want %s]' % (ch, show(p)[:400], show(q)[:400])


def _h(h):
  return '.'.join(str(x) for x in h)[:30]


def _a(args):
  return '[%s]' % ','.join(str(a) if isinstance(a, int) else str(a)[:20] for a in args)


class _V1Graph(object):
  """A graph is executed while it is built."""
  v1 = tf.compat.v1

  def tt(self, x):
    return x

  def start(self):
    pass

  def value(self, x):
    return x

  def value_tt(self, x):
    cores = [tf.identity(c) for c in x.tt_cores]
    return lambda: type(x)(cores)

  def run(self, x):
    pass


def run_contract(t3f, fn, cfg, seed=0, max_paths=300, select='main'):
  """All paths of one contract instance.  Returns a result dict.

  select: 'frame' keeps the obligations that the arguments are not modified,
  'main' keeps the others.
  """
  t0 = time.time()
  res = {'paths': 0, 'obligations': 0, 'proved': 0, 'failures': [], 'unsupported': [], 'by': {}}

  def run(context):
    E.reset()
    seq.stop()
    tf.RANDOM['n'] = 0
    del tf.RANDOM['log'][:]
    from t3v import symv1
    symv1.reset()
    b = Sym(t3f, context, seed, cfg.get('dtype', 'float64'))
    try:
      fn(b, **{k: v for k, v in cfg.items() if k != 'dtype'})
      b.finish()
      b.finish_any()
      return b, None, None
    except Unsupported as e:
      return b, 'unsupported', '%s @ %s' % (e, where(e))
    except ContractStop as e:
      return b, 'stopped', str(e)
    except Exception as e:
      return b, 'exception', '%s: %s @ %s' % (type(e).__name__, str(e)[:300], where(e))
  try:
    for context, (b, what, msg) in C.explore(run, max_paths):
      b.obligations = [o for o in b.obligations if o['name'].startswith('frame/') == (select == 'frame')]
      res['paths'] += 1
      res['obligations'] += len(b.obligations)
      res['proved'] += sum(1 for o in b.obligations if o['verdict'] == 'proved')
      for o in b.obligations:
        if o['verdict'] == 'proved':
          res['by'][o['by']] = res['by'].get(o['by'], 0) + 1
      bad = [o for o in b.obligations if o['verdict'] != 'proved']
      if what == 'exception' and (select == 'frame' or b.anyd):
        what, msg = 'unsupported', 'not finished: ' + msg
      if what == 'exception':
        bad.append({'name': 'runs-without-error', 'verdict': 'exception', 'detail': msg})
        res['obligations'] += 1
      elif what == 'unsupported':
        res['unsupported'].append(msg)
      if bad or what == 'unsupported':
        env = context.model(np.random.default_rng(seed + 7))
        res['failures'].append({'env': env, 'obligations': bad, 'unsupported': what == 'unsupported',
                                'assumptions': [(o, str(d), t) for o, d, t in context.facts]})
  except (C.PathLimit, Unsupported) as e:
    res['unsupported'].append(str(e))
    res['failures'].append({'env': None, 'obligations': [], 'unsupported': True, 'assumptions': []})
  res['seconds'] = time.time() - t0
  return res


def where(e):
  tb = traceback.extract_tb(e.__traceback__)
  for f in reversed(tb):
    if '/t3f/' in f.filename:
      return '%s:%d' % (f.filename, f.lineno)
  return '%s:%d' % (tb[-1].filename, tb[-1].lineno) if tb else '?'


def _symbols(n):
  """The symbols a size depends on, through the names given to sub-terms."""
  out = C.symbols_of(n)
  for base, to in reversed(num.CTX.defs):
    if to in out:
      out |= C._base_syms(base)
  return out


from t3v import anyb, common  # noqa: E402
common.install(Sym)
anyb.install(Sym, anyb.SymAny)
