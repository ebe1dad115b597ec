"""Index-notation expressions and their normal form.

An expression is a list of terms (coef, nodes).  A node is (head, args); every
index variable that is not external is summed over its range.  `simplify`
applies the facts attached to heads (orthonormality, factorisations, inverse),
`canon` computes a key that is invariant under renaming of bound variables and
reordering of factors.  Equality of keys is the proof of an identity over all
values and all dimensions.
"""
import itertools
from fractions import Fraction

from t3v.num import Num, Unsupported, decide, known_le

ONE = Num.const(1)
DELTA = ('delta',)


class State(object):
  """Per-run tables."""

  def __init__(self):
    self.vsize = {}
    self.nvar = 0
    self.inner = {}      # canonical key -> id
    self.inner_def = {}  # id -> dict(ext=[...], terms=[...], groups=(...))
    self.info = {}       # head -> dict (orth=[(sum_positions, free_position, batch_positions)], ...)
    self.rules = []      # extra rewrite rules: fn(coef, nodes, ext) -> list of terms or None
    self.positive = set()
    self.factored = False  # normal form with factorisations expanded
    self.hsize = {}      # head -> sizes of its arguments
    self.gdef = {}       # head of a differentiation variable -> its value


S = State()


def reset():
  global S
  S.__init__()


def fresh(size):
  S.nvar += 1
  S.vsize[S.nvar] = size
  return S.nvar


# -- arguments ---------------------------------------------------------------
def arg_vars(a):
  if isinstance(a, int):
    return (a,)
  if a[0] == 'c':
    return ()
  if a[0] == 'o':
    return (a[1],)
  if a[0] == 'j':
    out = ()
    for x, _ in a[1]:
      out += arg_vars(x)
    return out
  if a[0] == 't':
    out = ()
    for x in a[2]:
      out += arg_vars(x)
    return out
  raise AssertionError(a)


def subst_arg(a, m):
  if isinstance(a, int):
    return m.get(a, a)
  k = a[0]
  if k == 'c':
    return a
  if k == 'o':
    v = m.get(a[1], a[1])
    return affine(v, Num(dict(a[2])), Num(dict(a[3])))
  if k == 'j':
    return join(tuple((subst_arg(x, m), s) for x, s in a[1]))
  if k == 't':
    return ('t', a[1], tuple(subst_arg(x, m) for x in a[2]))
  raise AssertionError(a)


def join(parts):
  """Mixed-radix index with digits parts = ((index, size key), ...)."""
  out = []
  for x, s in parts:
    if not isinstance(x, int) and x[0] == 'j':
      p = ONE
      for _, z in x[1]:
        p = p * Num(dict(z))
      if p.key == s:
        out.extend(x[1])
        continue
    out.append((x, s))
  if all(not isinstance(x, int) and x[0] == 'c' for x, _ in out):
    v = Num.const(0)
    for x, s in out:
      v = v * Num(dict(s)) + Num(dict(x[1]))
    return ('c', v.key)
  return ('j', tuple(out))


def affine(v, off, step):
  """The index off + step * v."""
  if isinstance(v, int):
    if off.is_zero() and step.same(1):
      return v
    return ('o', v, off.key, step.key)
  if v[0] == 'c':
    return ('c', (off + step * Num(dict(v[1]))).key)
  if v[0] == 'o':
    return affine(v[1], off + step * Num(dict(v[2])), step * Num(dict(v[3])))
  if off.is_zero() and step.same(1):
    return v
  raise Unsupported('affine index of a composite index')


def node_vars(n):
  out = ()
  for a in n[1]:
    out += arg_vars(a)
  return out


def subst_nodes(nodes, m):
  if not m:
    return nodes
  return tuple((h, tuple(subst_arg(a, m) for a in args)) for h, args in nodes)


def term_vars(nodes):
  out = set()
  for n in nodes:
    out.update(node_vars(n))
  return out


def refresh(nodes, keep):
  """Rename the bound variables (those not in keep) apart."""
  m = {}
  for v in term_vars(nodes):
    if v not in keep:
      m[v] = fresh(S.vsize[v])
  return subst_nodes(nodes, m)


# -- simplification -----------------------------------------------------------
def simplify(terms, ext):
  """Normalise a list of terms; ext is the set of external variables."""
  ext = set(ext)
  work = list(terms)
  done = []
  steps = 0
  while work:
    coef, nodes = work.pop()
    steps += 1
    if steps > 20000:
      raise Unsupported('simplification did not terminate')
    if coef.is_zero():
      continue
    r = step(coef, nodes, ext)
    if r is None:
      done.append((coef, nodes))
    else:
      work.extend(r)
  return merge(done, ext)


def merge(terms, ext):
  if len(terms) <= 1:
    return terms
  acc = {}
  for coef, nodes in terms:
    k = canon_term(nodes, ext)
    if k in acc:
      acc[k] = (acc[k][0] + coef, acc[k][1])
    else:
      acc[k] = (coef, nodes)
  return [(c, n) for c, n in acc.values() if not c.is_zero()]


def _occ(nodes):
  occ = {}
  for n in nodes:
    for v in node_vars(n):
      occ[v] = occ.get(v, 0) + 1
  return occ


def drop_scale(coef, before, after_nodes, ext):
  """Account for bound variables that vanished from the term."""
  left = term_vars(after_nodes)
  for v in before:
    if v not in left and v not in ext:
      coef = coef * S.vsize[v]
  return coef


def step(coef, nodes, ext):
  """One rewrite step. None if in normal form."""
  # deltas
  r = _rule_one(coef, nodes, ext)
  if r is not None:
    return r
  for i, (h, args) in enumerate(nodes):
    if h == DELTA:
      r = _step_delta(coef, nodes, i, ext)
      if r is not None:
        return r
  for i, (h, args) in enumerate(nodes):
    if h[0] == 'pw':
      r = _step_pw(coef, nodes, i, ext)
      if r is not None:
        return r
  r = _step_orth(coef, nodes, ext)
  if r is not None:
    return r
  r = _step_fact(coef, nodes, ext)
  if r is not None:
    return r
  r = _step_join(coef, nodes, ext)
  if r is not None:
    return r
  for rule in S.rules:
    r = rule(coef, nodes, ext)
    if r is not None:
      return r
  return None


def _step_delta(coef, nodes, i, ext):
  a, b = nodes[i][1]
  rest = nodes[:i] + nodes[i + 1:]
  if a == b:
    c = drop_scale(coef, arg_vars(a), rest, ext)
    return [(c, rest)]
  if not isinstance(a, int) and not isinstance(b, int) and a[0] == 'o' and b[0] == 'o' \
      and a[2] == b[2] and a[3] == b[3]:
    return [(coef, rest + ((DELTA, (a[1], b[1])),))]
  for x, y in ((a, b), (b, a)):
    if isinstance(x, int) and x not in ext and x not in arg_vars(y):
      # The other index must stay within the range of x.
      if arg_fits(y, S.vsize[x]):
        return [(coef, subst_nodes(rest, {x: y}))]
  ca = None if isinstance(a, int) else a[0]
  cb = None if isinstance(b, int) else b[0]
  if ca == 'c' and cb == 'c':
    d = Num(dict(a[1])) - Num(dict(b[1]))
    if decide('==', d):
      return [(coef, rest)]
    return []
  if ca == 'j' and cb == 'j' and [s for _, s in a[1]] == [s for _, s in b[1]]:
    new = rest
    for (x, _), (y, _) in zip(a[1], b[1]):
      new = new + ((DELTA, (x, y)),)
    return [(coef, new)]
  return None


def arg_fits(a, size):
  if isinstance(a, int):
    return known_le(S.vsize[a], size)
  if a[0] == 'c':
    return known_le(Num(dict(a[1])) + 1, size)
  if a[0] == 'o':
    off, st = Num(dict(a[2])), Num(dict(a[3]))
    last = off + st * (S.vsize[a[1]] - 1)
    return known_le(off + 1, size) and known_le(last + 1, size) and \
        known_le(ONE * 0, off) and known_le(ONE * 0, last)
  if a[0] == 'j':
    p = ONE
    for _, s in a[1]:
      p = p * Num(dict(s))
    return p.same(size) or known_le(p, size)
  rng = S.info.get(a[1], {}).get('range')
  return rng is not None and known_le(rng, size)


def full(v, size):
  """v is a variable that ranges over exactly 0..size-1."""
  if not isinstance(v, int):
    return False
  s = S.vsize[v]
  return s.same(size) or (known_le(s, size) and known_le(size, s))


def whole(a, size, ext, occ, n):
  """The index a runs over its whole range within exactly n factors."""
  if isinstance(a, int):
    return a not in ext and occ[a] == n and full(a, size)
  return a[0] == 'c' and not a[1] and known_le(size, ONE)


def _step_orth(coef, nodes, ext):
  by_head = {}
  for i, (h, args) in enumerate(nodes):
    inf = S.info.get(h)
    if inf and inf.get('orth'):
      by_head.setdefault(h, []).append(i)
  if not by_head:
    return None
  occ = _occ(nodes)
  for h, idxs in by_head.items():
    if len(idxs) < 2:
      continue
    for sump, freep, batchp in S.info[h]['orth']:
      for i, j in itertools.combinations(idxs, 2):
        a1, a2 = nodes[i][1], nodes[j][1]
        if any(a1[p] != a2[p] for p in sump) or any(a1[p] != a2[p] for p in batchp):
          continue
        ok = True
        for p in sump:
          v = a1[p]
          if not isinstance(v, int) or v in ext or occ[v] != 2 or not full(v, S.hsize[h][p]):
            ok = False
            break
        if not ok:
          continue
        rest = tuple(n for k, n in enumerate(nodes) if k not in (i, j))
        for p in freep:
          rest = rest + ((DELTA, (a1[p], a2[p])),)
        before = [v for p in batchp for v in arg_vars(a1[p])]
        c = drop_scale(coef, before, rest, ext)
        return [(c, rest)]
  return None


def _step_fact(coef, nodes, ext):
  """Factorisations: Q R -> X, U S V^T -> X, L L^T -> X, X^-1 X -> I."""
  occ = None
  if S.factored:
    r = _step_factor(coef, nodes, ext)
    if r is not None:
      return r
  for i, (h, args) in enumerate(nodes):
    if S.factored and h[0] in ('Q', 'R', 'U', 'V', 'S'):
      if h[0] in ('Q', 'U', 'V'):
        r = _match_def(coef, nodes, i, ext)
        if r is not None:
          return r
      continue
    if h[0] == 'R':
      # R^T R = X^T X
      d = S.inner_def[h[1]]
      nb, nr, nc = d['groups']
      occ = occ or _occ(nodes)
      for j in range(i + 1, len(nodes)):
        h2, a2 = nodes[j]
        if h2 != h or a2[:nb] != args[:nb]:
          continue
        if d['k_axis']:
          if a2[nb] != args[nb] or not whole(args[nb], S.hsize[h][nb], ext, occ, 2):
            continue
        o = nb + (1 if d['k_axis'] else 0)
        rows = tuple(fresh(S.vsize[v]) for v in d['ext'][nb:nb + nr])
        rest = tuple(n for k, n in enumerate(nodes) if k not in (i, j))
        # keep the ranges of all indices until both copies are in place
        for v in set(rows) | set(node_vars(nodes[i])) | set(node_vars(nodes[j])):
          if not (d['k_axis'] and v == args[nb]):
            rest = rest + ((('one',), (v,)),)
        out = []
        for cf, nn in expand_def(coef, rest, h[1], args[:nb] + rows + args[o:], ext):
          out.extend(expand_def(cf, nn, h[1], args[:nb] + rows + a2[o:], ext))
        return out
    if h[0] in ('Q', 'U'):
      r = _match_def(coef, nodes, i, ext)
      if r is not None:
        return r
    if h[0] == 'V':
      r = _match_def(coef, nodes, i, ext)
      if r is not None:
        return r
    if h[0] == 'Q':
      occ = occ or _occ(nodes)
      d = S.inner_def[h[1]]
      nb, nr, nc = d['groups']
      c = args[nb + nr] if d['k_axis'] else None
      for j, (h2, a2) in enumerate(nodes):
        if h2[0] == 'R' and h2[1] == h[1] and a2[:nb] == args[:nb]:
          if d['k_axis']:
            if a2[nb] != c or not whole(c, S.hsize[h][nb + nr], ext, occ, 2):
              continue
            cols = a2[nb + 1:]
          else:
            cols = a2[nb:]
          rest = tuple(n for k, n in enumerate(nodes) if k not in (i, j))
          return expand_def(coef, rest, h[1], args[:nb] + args[nb:nb + nr] + cols, ext)
    elif h[0] == 'U':
      occ = occ or _occ(nodes)
      d = S.inner_def[h[1]]
      nb, nr, nc = d['groups']
      bargs = args[:nb]
      c = args[nb + nr] if d['k_axis'] else None
      if d['k_axis'] and not whole(c, S.hsize[h][nb + nr], ext, occ, 3):
        continue
      si = vi = None
      for j, (h2, a2) in enumerate(nodes):
        if h2[0] == 'S' and h2[1] == h[1] and a2[:nb] == bargs and a2[nb:] == ((c,) if d['k_axis'] else ()):
          si = j
        if h2[0] == 'V' and h2[1] == h[1] and a2[:nb] == bargs and \
            a2[nb + nc:] == ((c,) if d['k_axis'] else ()):
          vi = j
      if si is None or vi is None:
        continue
      cols = nodes[vi][1][nb:nb + nc]
      rest = tuple(n for k, n in enumerate(nodes) if k not in (i, si, vi))
      return expand_def(coef, rest, h[1], bargs + args[nb:nb + nr] + cols, ext)
    elif h[0] == 'chol':
      occ = occ or _occ(nodes)
      d = S.inner_def[h[1]]
      nb, nr, nc = d['groups']
      for j in range(i + 1, len(nodes)):
        h2, a2 = nodes[j]
        if h2 == h and a2[:nb] == args[:nb] and a2[nb + nr:] == args[nb + nr:]:
          if all(isinstance(v, int) and v not in ext and occ[v] == 2 and full(v, S.hsize[h][nb + nr + k])
                 for k, v in enumerate(args[nb + nr:])):
            rest = tuple(n for k, n in enumerate(nodes) if k not in (i, j))
            return expand_def(coef, rest, h[1], args[:nb] + args[nb:nb + nr] + a2[nb:nb + nr], ext)
    elif h[0] == 'inv':
      occ = occ or _occ(nodes)
      d = S.inner_def[h[1]]
      nb, nr, nc = d['groups']
      if len(d['terms']) != 1 or len(d['terms'][0][1]) != 1:
        continue
      pc, pn = d['terms'][0]
      xh, xa = pn[0]
      if not all(isinstance(v, int) for v in xa):
        continue
      dext = d['ext']
      for j, (h2, a2) in enumerate(nodes):
        if h2 != xh:
          continue
        m = dict(zip(xa, a2))
        xb = tuple(m.get(v) for v in dext[:nb])
        xr = tuple(m.get(v) for v in dext[nb:nb + nr])
        xc = tuple(m.get(v) for v in dext[nb + nr:])
        if xb != args[:nb]:
          continue
        ir, ic = args[nb:nb + nr], args[nb + nr:]
        sr, sc = S.hsize[h][nb:nb + nr], S.hsize[h][nb + nr:]
        for s1, s2, o1, o2, sz in ((ic, xr, ir, xc, sc), (ir, xc, ic, xr, sr)):
          if s1 == s2 and all(isinstance(v, int) and v not in ext and occ[v] == 2 and full(v, z)
                              for v, z in zip(s1, sz)):
            rest = tuple(n for k, n in enumerate(nodes) if k not in (i, j))
            for x, y in zip(o1, o2):
              rest = rest + ((DELTA, (x, y)),)
            before = [v for b in xb for v in arg_vars(b)]
            c = drop_scale(coef / pc, before, rest, ext)
            return [(c, rest)]
  return None


def _match_def(coef, nodes, i, ext):
  """Q^T X -> R, U^T X -> S V^T and X V -> U S, where X is a product found
  among the other factors."""
  h, args = nodes[i]
  d = S.inner_def[h[1]]
  nb, nr, nc = d['groups']
  if len(d['terms']) != 1:
    return None
  pc, pn = d['terms'][0]
  if not pn or pc.is_zero():
    return None
  n = nc if h[0] == 'V' else nr
  own = args[nb:nb + n]
  for k, v in enumerate(own):
    if not isinstance(v, int) or v in ext or not full(v, S.hsize[h][nb + k]):
      return None
  dext = d['ext']
  mine = dext[nb + nr:] if h[0] == 'V' else dext[nb:nb + nr]
  m0 = dict(zip(mine, own))
  for v, a in zip(dext[:nb], args[:nb]):
    m0[v] = a
  hit = match(pn, dext, m0, nodes, i, ext, own, [v for v in dext if v not in mine])
  if hit is None:
    return None
  m, used = hit
  rest = tuple(x for k, x in enumerate(nodes) if k != i and k not in used)
  b = args[:nb]
  kk = args[nb + n:]
  if h[0] == 'V':
    o = tuple(m[v] for v in dext[nb:nb + nr])
    new = ((('U', h[1]), b + o + kk), (('S', h[1]), b + kk))
  else:
    o = tuple(m[v] for v in dext[nb + nr:])
    if h[0] == 'Q':
      new = ((('R', h[1]), b + kk + o),)
    else:
      new = ((('S', h[1]), b + kk), (('V', h[1]), b + o + kk))
  return [(coef / pc, rest + new)]


def _step_factor(coef, nodes, ext):
  """X -> Q R and X -> U S V^T (the factored normal form)."""
  heads = set(n[0] for n in nodes)
  for did, d in S.inner_def.items():
    kinds = [k for k in ('Q', 'U') if (k, did) in S.hsize]
    if not kinds or len(d['terms']) != 1:
      continue
    pc, pn = d['terms'][0]
    if not pn or pc.is_zero() or not all(n[0] in heads for n in pn):
      continue
    if set(d['ext']) - term_vars(pn):
      continue
    hit = match(pn, d['ext'], {}, nodes, None, ext, (), d['ext'])
    if hit is None:
      continue
    m, used = hit
    nb, nr, nc = d['groups']
    rest = tuple(x for k, x in enumerate(nodes) if k not in used)
    b = tuple(m[v] for v in d['ext'][:nb])
    r = tuple(m[v] for v in d['ext'][nb:nb + nr])
    c = tuple(m[v] for v in d['ext'][nb + nr:])
    k = (fresh(S.hsize[(kinds[0], did)][nb + nr]),) if d['k_axis'] else ()
    if kinds[0] == 'Q':
      new = ((('Q', did), b + r + k), (('R', did), b + k + c))
    else:
      new = ((('U', did), b + r + k), (('S', did), b + k), (('V', did), b + c + k))
    return [(coef / pc, rest + new)]
  return None


def match(pn, dext, m0, nodes, skip, ext, own, free):
  """Find factors of the term equal to the product pn.  dext: parameters of
  the pattern, m0: parameters already bound, own: indices shared with the
  factor `skip` and used nowhere else."""
  occ = _occ(nodes)
  inner = term_vars(pn) - set(dext)
  i = skip

  def bind(pa, a, m):
    if isinstance(pa, int):
      if pa in m:
        return m if m[pa] == a else None
      m = dict(m)
      m[pa] = a
      return m
    if isinstance(a, int) or pa[0] != a[0]:
      return None
    if pa[0] == 'j':
      if len(pa[1]) != len(a[1]):
        return None
      for (x, s), (y, z) in zip(pa[1], a[1]):
        if s != z:
          return None
        m = bind(x, y, m)
        if m is None:
          return None
      return m
    if pa[0] == 't':
      if pa[1] != a[1] or len(pa[2]) != len(a[2]):
        return None
      for x, y in zip(pa[2], a[2]):
        m = bind(x, y, m)
        if m is None:
          return None
      return m
    return m if pa == a else None

  def search(k, m, used):
    if k == len(pn):
      # bound variables of the definition: distinct, bound here, used nowhere else
      vals = [m[v] for v in inner]
      if len(set(vals)) != len(vals) or any(not isinstance(x, int) or x in ext for x in vals):
        return None
      loc = {}
      for q in used:
        for v in node_vars(nodes[q]):
          loc[v] = loc.get(v, 0) + 1
      for v, x in zip(inner, vals):
        if occ[x] != loc[x] or not full(x, S.vsize[v]):
          return None
      for x in own:
        if occ[x] != loc.get(x, 0) + 1:
          return None
      others = [m.get(v) for v in free]
      if any(x is None for x in others):
        return None
      ov = [y for x in others for y in arg_vars(x)]
      if any(x in ov for x in own) or any(x in ov for x in vals):
        return None
      return m, used
    ph, pa = pn[k]
    for q, (h2, a2) in enumerate(nodes):
      if q == i or q in used or h2 != ph or len(a2) != len(pa):
        continue
      m2 = m
      for x, y in zip(pa, a2):
        m2 = bind(x, y, m2)
        if m2 is None:
          break
      if m2 is None:
        continue
      r = search(k + 1, m2, used + (q,))
      if r is not None:
        return r
    return None

  return search(0, m0, ())


def expand_def(coef, rest, did, args, ext):
  d = S.inner_def[did]
  m = dict(zip(d['ext'], args))
  keep = set(d['ext'])
  out = []
  avars = set()
  for a in args:
    avars.update(arg_vars(a))
  for c, nodes in d['terms']:
    nn = subst_nodes(refresh(nodes, keep), m)
    new = rest + nn
    cc = drop_scale(coef * c, avars, new, ext)
    out.append((cc, new))
  return out


def _step_join(coef, nodes, ext):
  """A group of bound variables used only through one identical join."""
  occ = _occ(nodes)
  for h, args in nodes:
    for a in args:
      if not isinstance(a, int) and a[0] == 'j':
        vs = [x for x, _ in a[1]]
        if not all(isinstance(v, int) and v not in ext and S.vsize[v].key == z for v, z in a[1]):
          continue
        if len(set(vs)) != len(vs):
          continue
        cnt = sum(1 for _, aa in nodes for x in aa if x == a)
        if all(occ[v] == cnt for v in vs):
          size = ONE
          for _, s in a[1]:
            size = size * Num(dict(s))
          w = fresh(size)
          nn = tuple((hh, tuple(w if x == a else x for x in aa)) for hh, aa in nodes)
          return [(coef, nn)]
  return None


# -- scalar power nodes -------------------------------------------------------
def pw(base, e, args):
  return (('pw', base, Num.of(e).key), tuple(args))


def _parity(e):
  """1 or 0 for an odd or even positive integer, None if that is open."""
  odd = 0
  for m, c in e.t.items():
    if c.denominator != 1 or c <= 0 or any(x.denominator != 1 or x <= 0 for _, x in m):
      return None
    f = [int(c) % 2] + [_parity_of_base(b) for b, _ in m]
    if 0 in f:
      continue
    if None in f:
      return None
    odd ^= 1
  return odd


def _parity_of_base(b):
  from t3v import num
  if num.CTX is None or not isinstance(b, str):
    return None
  q = Num.sym(('floor', Num.sym(b).key, 2))
  r = Num.sym(b) - q * 2
  if not any(q.t.keys() & d.t.keys() for _, d, _ in num.CTX.facts):
    return None
  v = num.CTX.known('==', r - 1)
  return None if v is None else int(v)


def _step_pw(coef, nodes, i, ext):
  h, args = nodes[i]
  base, e = h[1], Num(dict(h[2]))
  if e.is_zero():
    rest = nodes[:i] + nodes[i + 1:]
    c = drop_scale(coef, [v for a in args for v in arg_vars(a)], rest, ext)
    return [(c, rest)]
  # merge equal bases
  for j in range(i + 1, len(nodes)):
    h2, a2 = nodes[j]
    if h2[0] == 'pw' and h2[1] == base and a2 == args:
      ne = e + Num(dict(h2[2]))
      rest = tuple(n for k, n in enumerate(nodes) if k not in (i, j))
      return [(coef, rest + (pw(base, ne, args),))]
  if base[0] == 'sign' and not (e.same(1) or e.same(2)):
    # A sign is 0, 1 or -1: only the parity of a positive power matters.
    p = _parity(e)
    if p is not None:
      return [(coef, nodes[:i] + nodes[i + 1:] + (pw(base, 1 if p else 2, args),))]
  if e.is_const() and e.const_value().denominator == 1:
    k = int(e.const_value())
    if base[0] == 'id' and k > 0:
      rest = nodes[:i] + nodes[i + 1:]
      ts = [(coef, rest)]
      for _ in range(k):
        nt = []
        for c, n in ts:
          nt.extend(expand_def(c, n, base[1], args, ext))
        ts = nt
      return ts
    if base[0] == 'abs' and k > 0 and k % 2 == 0:
      rest = nodes[:i] + nodes[i + 1:]
      return [(coef, rest + (pw(('id', base[1]), e, args),))]
    if base[0] == 'abs' and k == 1:
      for j, (h2, a2) in enumerate(nodes):
        if h2[0] == 'pw' and h2[1] == ('sign', base[1]) and a2 == args and \
            Num(dict(h2[2])).same(1):
          rest = tuple(n for q, n in enumerate(nodes) if q not in (i, j))
          return [(coef, rest + (pw(('id', base[1]), 1, args),))]
  return None


# -- canonical keys -----------------------------------------------------------
def canon(terms, ext):
  """Key of a simplified expression; ext is an ordered list of variables."""
  labels = {v: i for i, v in enumerate(ext)}
  acc = {}
  for coef, nodes in terms:
    k = canon_term(nodes, labels)
    acc[k] = acc[k] + coef if k in acc else coef
  return tuple(sorted(((k, c.key) for k, c in acc.items() if not c.is_zero()), key=repr))


def canon_term(nodes, ext):
  """Canonical key of a product of nodes. ext: dict var->label or set."""
  if not isinstance(ext, dict):
    ext = {v: v for v in ext}
  vs = sorted(term_vars(nodes))
  bound = [v for v in vs if v not in ext]
  colour = {}
  for v in vs:
    colour[v] = hash(('e', ext[v])) if v in ext else hash(('b', S.vsize[v].key))
  colour = _refine(nodes, colour, bound)
  return _canon_rec(nodes, colour, bound, ext, [0])


def _sig(a, colour):
  if isinstance(a, int):
    return colour[a]
  if a[0] == 'c':
    return hash(a)
  if a[0] == 'o':
    return hash(('o', colour[a[1]], a[2], a[3]))
  if a[0] == 'j':
    return hash(('j', tuple((_sig(x, colour), s) for x, s in a[1])))
  return hash(('t', a[1], tuple(_sig(x, colour) for x in a[2])))


def _refine(nodes, colour, bound):
  if not bound:
    return colour
  nclass = len(set(colour[v] for v in bound))
  while True:
    uses = {v: [] for v in bound}
    for h, args in nodes:
      sig = [_sig(a, colour) for a in args]
      if h == DELTA:
        sig.sort()
      nsig = hash((h, tuple(sig)))
      for p, a in enumerate(args):
        pp = 0 if h == DELTA else p
        for q, v in enumerate(arg_vars(a)):
          if v in uses:
            uses[v].append(hash((nsig, pp, q if not isinstance(a, int) else -1)))
    colour = dict(colour)
    for v in bound:
      colour[v] = hash((colour[v], tuple(sorted(uses[v]))))
    n = len(set(colour[v] for v in bound))
    if n == nclass or n == len(bound):
      return colour
    nclass = n


def _canon_rec(nodes, colour, bound, ext, budget):
  classes = {}
  for v in bound:
    classes.setdefault(colour[v], []).append(v)
  tied = sorted((c for c, m in classes.items() if len(m) > 1))
  if not tied:
    order = sorted(bound, key=lambda v: colour[v])
    name = {v: ('b', i, S.vsize[v].key) for i, v in enumerate(order)}
    for v in ext:
      name[v] = ('e', ext[v])
    out = []
    for h, args in nodes:
      a = tuple(_ren(x, name) for x in args)
      if h == DELTA:
        a = tuple(sorted(a, key=repr))
      out.append((h, a))
    return tuple(sorted(out, key=repr))
  best = None
  cls = classes[tied[0]]
  for v in cls:
    budget[0] += 1
    if budget[0] > 3000:
      raise Unsupported('canonical form: too many symmetries')
    c2 = dict(colour)
    c2[v] = hash(('ind', c2[v]))
    c2 = _refine(nodes, c2, bound)
    k = _canon_rec(nodes, c2, bound, ext, budget)
    if best is None or repr(k) < repr(best):
      best = k
  return best


def _ren(a, name):
  if isinstance(a, int):
    return name[a]
  if a[0] == 'c':
    return a
  if a[0] == 'o':
    return ('o', name[a[1]], a[2], a[3])
  if a[0] == 'j':
    return ('j', tuple((_ren(x, name), s) for x, s in a[1]))
  return ('t', a[1], tuple(_ren(x, name) for x in a[2]))


def intern(kind, terms, ext, groups, **extra):
  """Intern an expression definition; returns its id."""
  key = (kind, groups, tuple(S.vsize[v].key for v in ext), canon(terms, ext))
  if key not in S.inner:
    i = 'e%d' % len(S.inner)
    S.inner[key] = i
    d = dict(ext=tuple(ext), terms=list(terms), groups=groups, kind=kind)
    d.update(extra)
    S.inner_def[i] = d
  return S.inner[key]


def _rule_one(coef, nodes, ext):
  """('one', v): a factor one that keeps the summation over v."""
  for i, (h, args) in enumerate(nodes):
    if h == ('one',):
      rest = nodes[:i] + nodes[i + 1:]
      return [(drop_scale(coef, [v for a in args for v in arg_vars(a)], rest, ext), rest)]
  return None
