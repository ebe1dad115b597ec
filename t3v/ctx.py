"""Path contexts: which facts hold on the current run, and forking.

A run of the real code under symbolic dimensions that meets an undecided
comparison is abandoned and restarted once per outcome, with the outcome as an
assumption; equalities that can be solved for a symbol become substitutions
applied when the symbol is created.  The set of completed runs therefore covers
every valuation of the dimension symbols that satisfies the preconditions.
"""
from fractions import Fraction

import z3

from t3v import num
from t3v.num import Num, Unsupported


class Fork(BaseException):
  def __init__(self, op, diff):
    BaseException.__init__(self, op, diff)
    self.op, self.diff = op, diff


class PathLimit(Exception):
  pass


class Define(BaseException):
  """The run is restarted with a symbol in place of the min(...) node that
  defines it, or with another choice in the cut of a loop."""

  def __init__(self, base, name):
    BaseException.__init__(self, base, name)
    self.base, self.name = base, name


STATS = {'z3_queries': 0, 'z3_seconds': 0.0}


class Context(object):

  def __init__(self, assumptions=(), defs=()):
    # assumptions: list of (op, diff Num over raw symbols, truth)
    self.assumptions = list(assumptions)
    self.defs = list(defs)  # (min(...) node, name of the symbol defined by it)
    self.sub = {}
    self.base_sub = {}  # min(...) nodes with a known value
    self.facts = []
    self.used = {}  # name -> kind of every symbol created on this run
    self.cache = {}
    self.any = False  # the number of cores is a symbol
    self.pre = []  # preconditions stated by the contract
    for base, name in self.defs:
      if base[0] == 'min':
        self.base_sub[base] = self.symbol(name)
    for op, d, truth in self.assumptions:
      self._add(op, d, truth)

  # -- facts ----------------------------------------------------------------
  def _add(self, op, d, truth):
    d = d.subst(self.sub)
    if op == '==' and truth:
      s = self._solve(d)
      if s is not None:
        name, val = s
        self.sub = {k: v.subst({name: val}) for k, v in self.sub.items()}
        self.sub[name] = val
        self.facts = [(o, x.subst({name: val}), t) for o, x, t in self.facts]
        return
      for m, c in d.t.items():
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'min' and \
            len(d.t) == 2 and () in d.t:
          self.base_sub[m[0][0]] = Num.const(-d.t[()] / c)
    self.facts.append((op, d, truth))
    self.cache = {}

  def _solve(self, d):
    """d == 0 solved for one symbol that occurs linearly and alone."""
    # sum of positive terms minus constant etc: try each symbol.
    for m, c in sorted(d.t.items(), key=repr):
      if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], str):
        b = m[0][0]
        if any(b in _sym_bases(k) for k in d.t if k != m):
          continue
        rest = Num({k: v for k, v in d.t.items() if k != m})
        val = rest * Num.const(Fraction(-1) / c)
        if val.is_const() and val.const_value() < 1:
          continue
        return b, val
    return None

  def require(self, cond_op, diff, truth=True):
    """State a contract precondition."""
    d = diff.subst(self.sub)
    if d.is_const():
      c = d.const_value()
      v = {'==': c == 0, '<': c < 0, '<=': c <= 0}[cond_op]
      if v != truth:
        raise Infeasible()
      return
    k = self.known(cond_op, d)
    if k is None:
      self._add(cond_op, d, truth)
      self.pre.append((cond_op, d, truth))
    elif k != truth:
      raise Infeasible()

  def axiom(self, op, diff):
    """A fact that holds by definition."""
    d = diff.subst(self.sub)
    if d.is_const():
      return
    if not any(o == op and t and x.key == d.key for o, x, t in self.facts):
      self.facts.append((op, d, True))
      self.cache = {}

  def symbol(self, name, kind='int', real=False):
    self.used.setdefault(name, 'real' if real else kind)
    return self.sub.get(name, Num.sym(name))

  # -- decisions ------------------------------------------------------------
  def decide(self, op, diff):
    v = self.known(op, diff)
    if v is not None:
      return v
    f = _unit_product(diff) if op == '==' else None
    if f is not None:
      # A product of integers is one exactly when every factor is one.
      return all(self.decide('==', Num.sym(b) - 1) for b in f)
    raise Fork(op, diff)

  def known(self, op, diff):
    if diff.is_const():
      c = diff.const_value()
      return {'==': c == 0, '<': c < 0, '<=': c <= 0}[op]
    if all(_pos_base(b) for m in diff.t for b, _ in m):
      if all(c > 0 for c in diff.t.values()):
        return False
      if all(c < 0 for c in diff.t.values()):
        return op != '=='
    # Cheap: all terms of one sign.
    lo = _lower(diff)
    if lo is not None and lo > 0:
      return False
    nlo = _lower(-diff)
    if nlo is not None and nlo > 0:
      return op in ('<', '<=')
    if lo is not None and lo >= 0 and op == '<':
      return False
    if nlo is not None and nlo >= 0 and op == '<=':
      return True
    k = (op, diff.key)
    if k in self.cache:
      return self.cache[k]
    v = self._ask(op, diff)
    self.cache[k] = v
    return v

  def _ask(self, op, diff):
    import time
    t0 = time.time()
    zs = Z3Env()
    base = []
    for o, d, truth in self.facts:
      e = zs.rel(o, d)
      base.append(e if truth else z3.Not(e))
    goal = zs.rel(op, diff)
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*base)
    s.add(*zs.side)
    s.push()
    s.add(goal)
    r1 = s.check()
    s.pop()
    out = None
    if r1 == z3.unsat:
      out = False
    else:
      s.push()
      s.add(z3.Not(goal))
      r2 = s.check()
      s.pop()
      if r2 == z3.unsat:
        out = True
    STATS['z3_queries'] += 1
    STATS['z3_seconds'] += time.time() - t0
    return out

  def feasible(self):
    zs = Z3Env()
    s = z3.Solver()
    s.set('timeout', 1500)
    for o, d, truth in self.facts:
      e = zs.rel(o, d)
      s.add(e if truth else z3.Not(e))
    for name, val in self.sub.items():
      s.add(zs.num(val) >= 1)
    s.add(*zs.side)
    return s.check() != z3.unsat

  def floordiv(self, a, o):
    k = int(o.const_value())
    q = Num.sym(('floor', a.key, k))
    r = a - q * k
    self.facts.append(('<', r, False))
    self.facts.append(('<', r - k, True))
    self.cache = {}
    return q

  def model(self, rng, hi=4, tries=400):
    """Random concrete valuation of the symbols satisfying the facts."""
    names = sorted(self.used)
    free = [n for n in names if n not in self.sub]
    best = None
    for t in range(tries):
      h = hi if t < tries // 2 else hi * 3
      env = {}
      for n in free:
        if self.used[n] == 'real':
          env[n] = float(rng.uniform(0.3, 2.5))
        else:
          env[n] = int(rng.integers(1, h + 1))
      try:
        for n, v in self.sub.items():
          x = v.eval(env)
          env[n] = x
        ok = all(v >= 1 and float(v) == int(v) for n, v in env.items()
                 if self.used.get(n) != 'real')
        for o, d, truth in self.facts:
          if not ok:
            break
          x = d.eval(env)
          r = {'==': abs(x) < 1e-12, '<': x < 0, '<=': x <= 1e-12}[o]
          ok = ok and (r == truth)
      except KeyError:
        ok = False
      if ok:
        return env
    return best


class Infeasible(BaseException):
  pass


def _pos_base(b):
  if isinstance(b, str):
    return True
  if b[0] == 'base':
    return all(c > 0 for _, c in b[1]) and all(_pos_base(x) for m, _ in b[1] for x, _ in m)
  return b[0] in ('min', 'root')


def _unit_product(d):
  """Bases b1, b2, ... when d is +-(b1^e1 * b2^e2 * ... - 1)."""
  if len(d.t) != 2 or () not in d.t:
    return None
  (m, c), = [(m, c) for m, c in d.t.items() if m]
  if c + d.t[()] != 0 or len(m) + sum(e for _, e in m) <= 2:
    return None
  if any(e < 1 or e.denominator != 1 or not isinstance(b, str) or b.startswith('$') for b, e in m):
    return None
  return [b for b, _ in m]


def symbols_of(x):
  """Names of the symbols a number depends on."""
  out = set()
  for m in x.t:
    out |= _sym_bases(m)
  return out


def _sym_bases(m):
  out = set()
  for b, _ in m:
    out |= _base_syms(b)
  return out


def _base_syms(b):
  if isinstance(b, str):
    return {b}
  if b[0] == 'min':
    s = set()
    for k in b[1]:
      for m, _ in k:
        s |= _sym_bases(m)
    return s
  if b[0] in ('floor', 'base'):
    s = set()
    for m, _ in b[1]:
      s |= _sym_bases(m)
    return s
  return set()


def _lower(d):
  """A lower bound of d using base >= 1 for all integer bases, or None."""
  lo = Fraction(0)
  for m, c in d.t.items():
    if not m:
      lo += c
      continue
    if any((isinstance(b, str) and b.startswith('$')) or (isinstance(b, tuple) and b[0] in ('floor', 'root', 'base'))
           or e < 0 for b, e in m):
      return None
    if c < 0:
      return None
    lo += c
  return lo


class Z3Env(object):

  def __init__(self):
    self.vars = {}
    self.side = []

  def num(self, n):
    tot = None
    den = 1
    for c in n.t.values():
      den = den * c.denominator // _gcd(den, c.denominator)
    for m, c in n.t.items():
      e = z3.IntVal(int(c * den))
      opaque = [(b, x) for b, x in m if x.denominator != 1 or x < 0]
      if opaque:
        v = self.vars.get(('mono', m))
        if v is None:
          v = z3.Real('mono%d' % len(self.vars))
          if all(_pos_base(b) for b, _ in m):
            self.side.append(v > 0)
          self.vars[('mono', m)] = v
        e = e * v
      else:
        for b, x in m:
          v = self.base(b)
          for _ in range(int(x)):
            e = e * v
      tot = e if tot is None else tot + e
    return z3.IntVal(0) if tot is None else tot

  def base(self, b):
    if b in self.vars:
      return self.vars[b]
    real = (isinstance(b, str) and b.startswith('$')) or (isinstance(b, tuple) and b[0] in ('base', 'root'))
    v = (z3.Real if real else z3.Int)('b%d' % len(self.vars))
    self.vars[b] = v
    if isinstance(b, str):
      self.side.append(v > 0 if real else v >= 1)
    elif b[0] == 'min':
      es = [self.num(Num(dict(k))) for k in b[1]]
      self.side.append(z3.And(*[v <= e for e in es]))
      self.side.append(z3.Or(*[v == e for e in es]))
    elif b[0] == 'floor':
      e = self.num(Num(dict(b[1])))
      self.side.append(v * b[2] <= e)
      self.side.append(e < v * b[2] + b[2])
    return v

  def rel(self, op, d):
    e = self.num(d)
    return {'==': e == 0, '<': e < 0, '<=': e <= 0}[op]


def _gcd(a, b):
  while b:
    a, b = b, a % b
  return a


def explore(run, max_paths=400):
  """Run `run(ctx)` on every path. Yields (ctx, outcome) for completed runs."""
  work = [([], [])]
  done = 0
  visited = 0
  while work:
    assumptions, defs = work.pop()
    visited += 1
    if visited > max_paths:
      raise PathLimit('more than %d path nodes' % max_paths)
    ctx = Context(assumptions, defs)
    if assumptions and not ctx.feasible():
      continue
    num.CTX = ctx
    try:
      out = run(ctx)
    except Fork as f:
      work.append((assumptions + [(f.op, f.diff, False)], defs))
      work.append((assumptions + [(f.op, f.diff, True)], defs))
      continue
    except Define as f:
      work.append((assumptions, defs + [(f.base, f.name)]))
      continue
    except Infeasible:
      continue
    finally:
      num.CTX = None
    done += 1
    yield ctx, out
