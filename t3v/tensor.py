"""Symbolic tensors over index-notation expressions.

An axis is a tuple of components in row-major order; a component is Atom(size)
or Sum(parts) (a concatenation, every part being again an axis).  Axes of size
one have no components.  The value of a tensor is a dict from the choice of
part in every Sum (per axis) to an expression over the index variables of the
atoms; a missing choice is zero.
"""
import itertools
from fractions import Fraction

import numpy as np

from t3v import expr as E
from t3v import num
from t3v.expr import fresh, subst_nodes, refresh, simplify, DELTA
from t3v.num import Num, Unsupported, decide, prod, nmin


class InvalidArgument(Exception):
  """Stands for tf.errors.InvalidArgumentError."""


class Atom(object):
  __slots__ = ('size',)

  def __init__(self, size):
    self.size = Num.of(size)

  def sig(self):
    return ('a', self.size.key)


class Sum(object):
  __slots__ = ('parts', '_size')

  def __init__(self, parts):
    self.parts = tuple(tuple(p) for p in parts)
    s = Num.const(0)
    for p in self.parts:
      s = s + axis_size(p)
    self._size = s

  @property
  def size(self):
    return self._size

  def sig(self):
    return ('s', tuple(axis_sig(p) for p in self.parts))


def axis_size(axis):
  return prod(c.size for c in axis)


def axis_sig(axis):
  return tuple(c.sig() for c in axis)


def mk_axis(n):
  n = Num.of(n)
  return () if n.same(1) else (Atom(n),)


def enum_axis(axis):
  """All (choice, atom sizes) of an axis."""
  out = [((), ())]
  for c in axis:
    new = []
    for ch, sz in out:
      if isinstance(c, Atom):
        new.append((ch, sz + (c.size,)))
      else:
        for p, part in enumerate(c.parts):
          for ch2, sz2 in enum_axis(part):
            new.append((ch + (p,) + ch2, sz + sz2))
    out = new
  return out


def consume(comp, choice, vars_, ci, vi):
  """Positions after comp in (choice, vars)."""
  if isinstance(comp, Atom):
    return ci, vi + 1
  p = choice[ci]
  ci += 1
  for c in comp.parts[p]:
    ci, vi = consume(c, choice, vars_, ci, vi)
  return ci, vi


def split_sel(comps, choice, vars_):
  """Per-component (choice, vars) segments."""
  out = []
  ci = vi = 0
  for c in comps:
    c2, v2 = consume(c, choice, vars_, ci, vi)
    out.append((choice[ci:c2], vars_[vi:v2]))
    ci, vi = c2, v2
  return out


def factor_sum(axis):
  """Sum([P+X, Q+X]) -> (Sum([P, Q]),)+X for common trailing components X."""
  if len(axis) != 1 or not isinstance(axis[0], Sum):
    return axis
  parts = [list(p) for p in axis[0].parts]
  tail = []
  while all(parts[i] for i in range(len(parts))):
    s = parts[0][-1].sig()
    if not all(p[-1].sig() == s for p in parts):
      break
    tail.insert(0, parts[0][-1])
    for p in parts:
      p.pop()
  return (Sum(parts),) + tuple(tail)


class T(object):
  """A symbolic tensor value (no dtype bookkeeping here)."""
  __slots__ = ('axes', 'pieces')

  def __init__(self, axes, pieces):
    self.axes = tuple(tuple(a) for a in axes)
    self.pieces = pieces

  @property
  def rank(self):
    return len(self.axes)

  def sizes(self):
    return [axis_size(a) for a in self.axes]

  def ext(self, piece):
    return [v for vs in piece[0] for v in vs]


def make(axes, fn):
  """Tensor from fn(choice per axis, vars per axis) -> terms or None."""
  axes = tuple(tuple(a) for a in axes)
  pieces = {}
  for combo in itertools.product(*[enum_axis(a) for a in axes]):
    ch = tuple(c for c, _ in combo)
    vs = tuple(tuple(fresh(s) for s in sz) for _, sz in combo)
    terms = fn(ch, vs)
    if terms:
      pieces[ch] = (vs, terms)
  return T(axes, pieces)


def scalar(x):
  x = Num.of(x)
  return T((), {} if x.is_zero() else {(): ((), [(x, ())])})


def fill(dims, x):
  x = Num.of(x)
  axes = [mk_axis(d) for d in dims]
  if x.is_zero():
    return T(axes, {})
  return make(axes, lambda ch, vs: [(x, ())])


def atom(head, dims):
  """Opaque tensor with the given head; args are its non-unit axes."""
  axes = [mk_axis(d) for d in dims]
  return atom_axes(head, axes)


def atom_axes(head, axes):
  def f(ch, vs):
    args = tuple(v for g in vs for v in g)
    h = head
    if any(ch):
      raise Unsupported('opaque tensor over a concatenated axis')
    E.S.hsize[h] = tuple(E.S.vsize[v] for v in args)
    return [(E.ONE, ((h, args),))]
  return make(axes, f)


def eye(n):
  ax = mk_axis(n)
  if not ax:
    return fill([1, 1], 1)
  def f(ch, vs):
    return [(E.ONE, ((DELTA, (vs[0][0], vs[1][0])),))]
  return make([ax, ax], f)


# -- structural operations ----------------------------------------------------
def permute(t, order):
  axes = [t.axes[i] for i in order]
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    pieces[tuple(ch[i] for i in order)] = (tuple(vs[i] for i in order), terms)
  return T(axes, pieces)


def expand(t, k):
  axes = t.axes[:k] + ((),) + t.axes[k:]
  pieces = {ch[:k] + ((),) + ch[k:]: (vs[:k] + ((),) + vs[k:], terms)
            for ch, (vs, terms) in t.pieces.items()}
  return T(axes, pieces)


def squeeze_axis(t, k):
  if t.axes[k]:
    raise AssertionError
  pieces = {ch[:k] + ch[k + 1:]: (vs[:k] + vs[k + 1:], terms)
            for ch, (vs, terms) in t.pieces.items()}
  return T(t.axes[:k] + t.axes[k + 1:], pieces)


def regroup(t, comps_groups):
  """Regroup the flat component list into new axes."""
  flat = [c for a in t.axes for c in a]
  axes = []
  i = 0
  for g in comps_groups:
    axes.append(tuple(flat[i:i + g]))
    i += g
  assert i == len(flat)
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    segs = []
    for a, c, v in zip(t.axes, ch, vs):
      segs.extend(split_sel(a, c, v))
    nch, nvs = [], []
    i = 0
    for g in comps_groups:
      nch.append(tuple(x for s in segs[i:i + g] for x in s[0]))
      nvs.append(tuple(x for s in segs[i:i + g] for x in s[1]))
      i += g
    pieces[tuple(nch)] = (tuple(nvs), terms)
  return T(axes, pieces)


def split_atom(t, k, pos, s1, s2):
  """Split the Atom at component `pos` of axis k into sizes s1 * s2."""
  ax = t.axes[k]
  new_ax = ax[:pos] + tuple(Atom(s) for s in (s1, s2) if not Num.of(s).same(1)) + ax[pos + 1:]
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    segs = split_sel(ax, ch[k], vs[k])
    (v,) = segs[pos][1]
    v1, v2 = fresh(s1), fresh(s2)
    m = {v: E.join(((v1, s1.key), (v2, s2.key)))}
    nv = ()
    for i, s in enumerate(segs):
      nv += (v1, v2) if i == pos else s[1]
    pieces[ch] = (vs[:k] + (nv,) + vs[k + 1:], [(c, subst_nodes(n, m)) for c, n in terms])
  axes = t.axes[:k] + (new_ax,) + t.axes[k + 1:]
  return T(axes, pieces)


def reshape(t, dims):
  dims = [d if (isinstance(d, int) and d == -1) else Num.of(d) for d in dims]
  total = prod(t.sizes())
  unknown = [i for i, d in enumerate(dims)
             if (isinstance(d, int) and d == -1) or (isinstance(d, Num) and d.is_const() and d.const_value() == -1)]
  if len(unknown) > 1:
    raise InvalidArgument('only one input size may be -1')
  if unknown:
    rest = prod(d for i, d in enumerate(dims) if i != unknown[0])
    q = total.exact_div(rest)
    if q is None or any(e < 0 for m in q.t for _, e in m) or any(c.denominator != 1 for c in q.t.values()):
      if q is not None and q.is_const():
        raise InvalidArgument('reshape: %s is not divisible by %s' % (total, rest))
      raise Unsupported('reshape: cannot divide %s by %s' % (total, rest))
    dims[unknown[0]] = q
  if not decide('==', prod(dims) - total):
    raise InvalidArgument('cannot reshape size %s into %s' % (total, dims))
  # one flat axis, then group
  cur = regroup(t, [sum(len(a) for a in t.axes)]) if True else t
  groups = []
  pos = 0
  for d in dims:
    n = 0
    acc = Num.const(1)
    while not acc.same(d):
      flat = cur.axes[0]
      if pos + n >= len(flat):
        if decide('==', acc - d):
          break
        raise Unsupported('reshape: %s does not align with %s' % (dims, t.sizes()))
      c = flat[pos + n]
      nxt = acc * c.size
      if _divides(nxt, d):
        acc = nxt
        n += 1
        continue
      need = d.exact_div(acc)
      if isinstance(c, Atom) and need is not None and _integral(need):
        r = c.size.exact_div(need)
        if r is not None and _integral(r) and not need.same(1):
          cur = split_atom(cur, 0, pos + n, need, r)
          continue
      if isinstance(c, Sum):
        f = factor_sum((c,))
        if len(f) > 1:
          cur = T([flat[:pos + n] + f + flat[pos + n + 1:]], cur.pieces)
          continue
      if decide('==', acc - d):
        break
      if acc.is_const() and d.is_const() or True:
        raise Unsupported('reshape: %s does not align with %s' % (dims, t.sizes()))
    groups.append(n)
    pos += n
  if pos != len(cur.axes[0]):
    raise Unsupported('reshape: trailing components')
  return regroup(cur, groups)


def _integral(q):
  return all(c.denominator == 1 for c in q.t.values()) and \
      all(e >= 0 and e.denominator == 1 for m in q.t for _, e in m)


def _divides(a, b):
  q = b.exact_div(a)
  return q is not None and _integral(q)


# -- alignment of axes --------------------------------------------------------
def sizes_equal(a, b):
  return a.same(b) or decide('==', a - b)


def unify(a, b):
  """Common refinement of two axes of equal size."""
  if axis_sig(a) == axis_sig(b):
    return a
  if len(a) == 1 and isinstance(a[0], Atom):
    return b
  if len(b) == 1 and isinstance(b[0], Atom):
    return a
  a, b = factor_sum(a), factor_sum(b)
  if axis_sig(a) == axis_sig(b):
    return a
  if len(a) == 1 and len(b) == 1 and isinstance(a[0], Sum) and isinstance(b[0], Sum):
    if len(a[0].parts) == len(b[0].parts) and \
        all(axis_size(p).same(axis_size(q)) for p, q in zip(a[0].parts, b[0].parts)):
      return (Sum([unify(p, q) for p, q in zip(a[0].parts, b[0].parts)]),)
    return (Sum(_unify_parts(a[0].parts, b[0].parts)),)
  out = ()
  i = j = 0
  while i < len(a) and j < len(b):
    if a[i].size.same(b[j].size):
      out += unify((a[i],), (b[j],))
      i += 1
      j += 1
      continue
    # one side is an atom that covers several components of the other
    done = False
    for x, y, xi, yj, flip in ((a, b, i, j, False), (b, a, j, i, True)):
      if isinstance(x[xi], Atom):
        acc = Num.const(1)
        for k in range(yj, len(y)):
          acc = acc * y[k].size
          if acc.same(x[xi].size):
            out += tuple(y[yj:k + 1])
            if flip:
              j, i = xi + 1, k + 1
            else:
              i, j = xi + 1, k + 1
            done = True
            break
      if done:
        break
    if not done:
      raise Unsupported('axes do not align')
  if i != len(a) or j != len(b):
    raise Unsupported('axes do not align')
  return out


def _unify_parts(x, y):
  """Common refinement of two concatenations of the same total size."""
  out = []
  i = j = 0
  while i < len(x) and j < len(y):
    if axis_size(x[i]).same(axis_size(y[j])):
      out.append(unify(x[i], y[j]))
      i, j = i + 1, j + 1
      continue
    n = _covers(y[j], x, i)
    if n:
      out.extend(x[i:i + n])
      i, j = i + n, j + 1
      continue
    n = _covers(x[i], y, j)
    if not n:
      raise Unsupported('concatenations with different parts')
    out.extend(y[j:j + n])
    i, j = i + 1, j + n
  if i != len(x) or j != len(y):
    raise Unsupported('concatenations with different parts')
  return out


def _covers(axis, parts, i):
  """Number of parts from i on that make up the atomic axis, or 0."""
  if len(axis) != 1 or not isinstance(axis[0], Atom):
    return 0
  acc = Num.const(0)
  for k in range(i, len(parts)):
    acc = acc + axis_size(parts[k])
    if acc.same(axis_size(axis)):
      return k + 1 - i
  return 0


def align(t, k, ref):
  """Refine axis k of t to the structure of ref."""
  if axis_sig(t.axes[k]) == axis_sig(ref):
    return t
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    for nch, nvs, m in refine_sel(t.axes[k], ch[k], vs[k], ref):
      key = ch[:k] + (nch,) + ch[k + 1:]
      pieces[key] = (vs[:k] + (nvs,) + vs[k + 1:],
                     [(c, subst_nodes(n, m)) for c, n in terms])
  return T(t.axes[:k] + (tuple(ref),) + t.axes[k + 1:], pieces)


def refine_sel(axis, choice, vars_, ref):
  """All (choice', vars', substitution) of the selection within ref."""
  if axis_sig(axis) == axis_sig(ref):
    return [(choice, vars_, {})]
  if len(axis) == 1 and isinstance(axis[0], Atom):
    (v,) = vars_
    if len(ref) == 1 and isinstance(ref[0], Sum):
      out = []
      off = Num.const(0)
      for p, part in enumerate(ref[0].parts):
        for ch, sz in enum_axis(part):
          if len(sz) == 0:
            out.append(((p,) + ch, (), {v: ('c', off.key)}))
          elif len(sz) == 1:
            w = fresh(sz[0])
            out.append(((p,) + ch, (w,), {v: E.affine(w, off, Num.const(1))}))
          else:
            raise Unsupported('atom against a concatenation of products')
          if ch:
            raise Unsupported('nested concatenation')
        off = off + axis_size(part)
      return out
    if all(isinstance(c, Atom) for c in ref):
      ws = tuple(fresh(c.size) for c in ref)
      j = E.join(tuple((w, c.size.key) for w, c in zip(ws, ref)))
      return [((), ws, {v: j})]
    raise Unsupported('atom against a mixed axis')
  f = factor_sum(axis)
  if axis_sig(f) == axis_sig(ref):
    return [(choice, vars_, {})]
  rf = factor_sum(ref)
  if axis_sig(rf) != axis_sig(ref):
    return refine_sel(axis, choice, vars_, rf)
  axis = f
  if len(axis) == 1 and len(ref) == 1 and isinstance(axis[0], Sum) and isinstance(ref[0], Sum):
    p = choice[0]
    if len(axis[0].parts) != len(ref[0].parts):
      s = 0
      for q in range(p + 1):
        n = 1 if axis_size(axis[0].parts[q]).same(axis_size(ref[0].parts[s])) else \
            _covers(axis[0].parts[q], ref[0].parts, s)
        if not n:
          raise Unsupported('concatenations with different parts')
        if q < p:
          s += n
      if n == 1:
        return [((s,) + c2, v2, m) for c2, v2, m in
                refine_sel(axis[0].parts[p], choice[1:], vars_, ref[0].parts[s])]
      return [((c2[0] + s,) + c2[1:], v2, m) for c2, v2, m in
              refine_sel(axis[0].parts[p], choice[1:], vars_, (Sum(ref[0].parts[s:s + n]),))]
    return [((p,) + c2, v2, m) for c2, v2, m in
            refine_sel(axis[0].parts[p], choice[1:], vars_, ref[0].parts[p])]
  # componentwise
  segs = split_sel(axis, choice, vars_)
  res = [((), (), {})]
  i = j = 0
  while i < len(axis):
    if j >= len(ref):
      raise Unsupported('axes do not align')
    acc = Num.const(1)
    k = j
    while not acc.same(axis[i].size):
      if k >= len(ref):
        raise Unsupported('axes do not align')
      acc = acc * ref[k].size
      k += 1
    sub = refine_sel((axis[i],), segs[i][0], segs[i][1], ref[j:k])
    res = [(c + c2, v + v2, dict(list(m.items()) + list(m2.items())))
           for c, v, m in res for c2, v2, m2 in sub]
    i += 1
    j = k
  if j != len(ref):
    raise Unsupported('axes do not align')
  return res


# -- algebra ------------------------------------------------------------------
def contract(letters_in, tensors, letters_out):
  """Generalised einsum; letters are hashables, one list per tensor."""
  tensors = list(tensors)
  # diagonal extraction within one operand is not needed by the code base
  for ls in letters_in:
    if len(set(ls)) != len(ls):
      raise Unsupported('repeated index in one operand')
  ref = {}
  for ti, ls in enumerate(letters_in):
    for k, l in enumerate(ls):
      ax = tensors[ti].axes[k]
      if l not in ref:
        ref[l] = ax
        continue
      if axis_sig(ref[l]) == axis_sig(ax):
        continue
      s1, s2 = axis_size(ref[l]), axis_size(ax)
      if s1.same(1) or s2.same(1):
        if s1.same(s2):
          continue
        d = s1 if s2.same(1) else s2
        if decide('==', d - 1):
          raise Unsupported('unit axis with components')
        raise InvalidArgument('dimension mismatch: %s and %s' % (s1, s2))
      if not sizes_equal(s1, s2):
        raise InvalidArgument('dimension mismatch: %s and %s' % (s1, s2))
      ref[l] = unify(ref[l], ax)
  # unify is pairwise; the last refinement may require another pass
  for _ in range(2):
    for ti, ls in enumerate(letters_in):
      for k, l in enumerate(ls):
        ref[l] = unify(ref[l], tensors[ti].axes[k])
  for ti, ls in enumerate(letters_in):
    for k, l in enumerate(ls):
      tensors[ti] = align(tensors[ti], k, ref[l])
  out_axes = [ref[l] for l in letters_out]
  summed = [l for l in ref if l not in letters_out]
  # Multiply operands one by one, keeping a dict from letter choices to terms.
  # state: list of (choice dict, vars dict, terms)
  state = [({}, {}, [(E.ONE, ())])]
  remaining = [set(ls) for ls in letters_in]
  for ti, ls in enumerate(letters_in):
    t = tensors[ti]
    new = {}
    later = set()
    for r in remaining[ti + 1:]:
      later |= r
    for chd, vd, terms in state:
      for ch, (vs, tterms) in t.pieces.items():
        ok = True
        for l, c in zip(ls, ch):
          if l in chd and chd[l] != c:
            ok = False
            break
        if not ok:
          continue
        chd2, vd2 = dict(chd), dict(vd)
        m = {}
        for l, c, v in zip(ls, ch, vs):
          if l in vd2:
            for a, b in zip(v, vd2[l]):
              m[a] = b
          else:
            chd2[l] = c
            nv = tuple(fresh(E.S.vsize[x]) for x in v)
            vd2[l] = nv
            for a, b in zip(v, nv):
              m[a] = b
        keep = set(x for v in vs for x in v)
        nts = []
        for c1, n1 in terms:
          for c2, n2 in tterms:
            nts.append((c1 * c2, n1 + subst_nodes(refresh(n2, keep), m)))
        # letters that can be summed now
        gone = [l for l in chd2 if l not in letters_out and l not in later]
        ext = set()
        for l, v in vd2.items():
          if l not in gone:
            ext.update(v)
        gv = [x for l in gone for x in vd2[l]]
        if gv:
          fixed = []
          for c, n in nts:
            have = E.term_vars(n)
            for x in gv:
              if x not in have:
                c = c * E.S.vsize[x]
            fixed.append((c, n))
          nts = fixed
        for l in gone:
          del chd2[l]
          del vd2[l]
        nts = simplify(nts, ext)
        if not nts:
          continue
        key = tuple(sorted(((repr(l), l, c) for l, c in chd2.items()), key=lambda x: x[0]))
        if key in new:
          _, vd0, t0 = new[key]
          m2 = {}
          for l in vd2:
            for a, b in zip(vd2[l], vd0[l]):
              m2[a] = b
          ext0 = set(x for v in vd0.values() for x in v)
          t0 = t0 + [(c, subst_nodes(n, m2)) for c, n in nts]
          new[key] = (chd2, vd0, E.merge(t0, ext0))
        else:
          new[key] = (chd2, vd2, nts)
    state = list(new.values())
  pieces = {}
  for chd, vd, terms in state:
    # operands may miss letters with unit axes; all out letters are present
    ch = tuple(chd[l] for l in letters_out)
    vs = tuple(vd[l] for l in letters_out)
    if terms:
      pieces[ch] = (vs, terms)
  return T(out_axes, pieces)


def add(a, b):
  """Sum of two tensors with the same shape."""
  for k in range(a.rank):
    ref = unify(a.axes[k], b.axes[k])
    a, b = align(a, k, ref), align(b, k, ref)
  pieces = dict(a.pieces)
  for ch, (vs, terms) in b.pieces.items():
    if ch in pieces:
      vs0, t0 = pieces[ch]
      m = {}
      for x, y in zip([v for g in vs for v in g], [v for g in vs0 for v in g]):
        m[x] = y
      ext = set(v for g in vs0 for v in g)
      nt = []
      for c, n in terms:
        nt.append((c, subst_nodes(refresh(n, set(m)), m)))
      r = E.merge(t0 + nt, ext)
      if r:
        pieces[ch] = (vs0, r)
      else:
        del pieces[ch]
    else:
      pieces[ch] = (vs, terms)
  return T(a.axes, pieces)


def scale(t, c):
  c = Num.of(c)
  if c.is_zero():
    return T(t.axes, {})
  return T(t.axes, {ch: (vs, [(x * c, n) for x, n in terms])
                    for ch, (vs, terms) in t.pieces.items()})


def broadcast_to(t, axes):
  """Broadcast t (same rank) to the given axes structure."""
  pieces = {}
  for k, ax in enumerate(axes):
    if t.axes[k] or not ax:
      continue
    pieces = {}
    for ch, (vs, terms) in t.pieces.items():
      for c, sz in enum_axis(ax):
        nv = tuple(fresh(s) for s in sz)
        pieces[ch[:k] + (c,) + ch[k + 1:]] = (vs[:k] + (nv,) + vs[k + 1:], terms)
    t = T(t.axes[:k] + (tuple(ax),) + t.axes[k + 1:], pieces)
  return t


def rebind(pieces):
  return pieces


def broadcast_pair(a, b):
  """Numpy-style broadcasting of two tensors to a common shape."""
  while a.rank < b.rank:
    a = expand(a, 0)
  while b.rank < a.rank:
    b = expand(b, 0)
  axes = []
  for x, y in zip(a.axes, b.axes):
    if not x:
      axes.append(y)
    elif not y:
      axes.append(x)
    else:
      s1, s2 = axis_size(x), axis_size(y)
      if not sizes_equal(s1, s2):
        if decide('==', s1 - 1) or decide('==', s2 - 1):
          raise Unsupported('unit axis with components')
        raise InvalidArgument('incompatible shapes %s and %s' % (a.sizes(), b.sizes()))
      axes.append(unify(x, y))
  return a, b, axes


def badd(a, b):
  a, b, axes = broadcast_pair(a, b)
  return add(broadcast_to(a, axes), broadcast_to(b, axes))


def bmul(a, b):
  a, b, axes = broadcast_pair(a, b)
  la, lb, lo = [], [], []
  for k, ax in enumerate(axes):
    lo.append(k)
    la.append(k if a.axes[k] or not ax else ('ua', k))
    lb.append(k if b.axes[k] or not ax else ('ub', k))
  # A unit axis broadcast against a real one: drop it.
  def strip(t, ls):
    for k in reversed(range(len(ls))):
      if isinstance(ls[k], tuple):
        t = squeeze_axis(t, k)
        ls = ls[:k] + ls[k + 1:]
    return t, ls
  a, la = strip(a, la)
  b, lb = strip(b, lb)
  return contract([la, lb], [a, b], lo)


def reduce_sum(t, axes):
  keep = [k for k in range(t.rank) if k not in axes]
  return contract([list(range(t.rank))], [t], keep)


def concat(ts, k):
  """Concatenate along axis k."""
  rank = ts[0].rank
  ts = [t for t in ts if not axis_size(t.axes[k]).is_zero()] or [ts[0]]
  for j in range(rank):
    if j == k:
      continue
    ref = ts[0].axes[j]
    for t in ts[1:]:
      s1, s2 = axis_size(ref), axis_size(t.axes[j])
      if not sizes_equal(s1, s2):
        raise InvalidArgument('concat: dimensions %s and %s differ' % (s1, s2))
      ref = unify(ref, t.axes[j])
    for t in ts[1:]:
      ref = unify(ref, t.axes[j])
    ts = [align(t, j, ref) for t in ts]
  if len(ts) == 1:
    return ts[0]
  parts = []
  pieces = {}
  for t in ts:
    ax = t.axes[k]
    if len(ax) == 1 and isinstance(ax[0], Sum):
      base = len(parts)
      parts.extend(ax[0].parts)
      for ch, pv in t.pieces.items():
        nk = (ch[k][0] + base,) + ch[k][1:]
        pieces[ch[:k] + (nk,) + ch[k + 1:]] = pv
    else:
      base = len(parts)
      parts.append(ax)
      for ch, pv in t.pieces.items():
        pieces[ch[:k] + ((base,) + ch[k],) + ch[k + 1:]] = pv
  ax = factor_sum((Sum(parts),))
  return T(ts[0].axes[:k] + (ax,) + ts[0].axes[k + 1:], pieces)


def index(t, k, i):
  """t[..., i, ...] with a constant index i (Num) along axis k."""
  ax = t.axes[k]
  i = Num.of(i)
  size = axis_size(ax)
  if decide('<', i):
    i = i + size
  if decide('<', i) or not decide('<', i - size):
    raise InvalidArgument('index %s out of bounds for size %s' % (i, size))
  sel = locate(ax, i)
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    if ch[k] != sel[0]:
      continue
    m = dict(zip(vs[k], sel[1]))
    nts = []
    ext = set(v for j, g in enumerate(vs) if j != k for v in g)
    for c, n in terms:
      nts.append((c, subst_nodes(n, m)))
    nts = simplify(nts, ext)
    if nts:
      pieces[ch[:k] + ch[k + 1:]] = (vs[:k] + vs[k + 1:], nts)
  return T(t.axes[:k] + t.axes[k + 1:], pieces)


def locate(axis, i):
  """(choice, const args) of flat index i in an axis."""
  if not axis:
    return (), ()
  if len(axis) == 1:
    c = axis[0]
    if isinstance(c, Atom):
      return (), (('c', i.key),)
    off = Num.const(0)
    for p, part in enumerate(c.parts):
      s = axis_size(part)
      if decide('<', i - off - s):
        ch, a = locate(part, i - off)
        return (p,) + ch, a
      off = off + s
    raise AssertionError
  rest = prod(c.size for c in axis[1:])
  if i.is_zero():
    hi, lo = i, i
  elif i.same(axis_size(axis) - 1):
    hi, lo = axis[0].size - 1, rest - 1
  elif i.is_const() and rest.is_const():
    hi, lo = Num.of(i.const_value() // rest.const_value()), Num.of(i.const_value() % rest.const_value())
  else:
    if decide('<', i - rest):
      hi, lo = Num.const(0), i
    else:
      raise Unsupported('constant index into a product axis')
  c1, a1 = locate(axis[:1], hi)
  c2, a2 = locate(axis[1:], lo)
  return c1 + c2, a1 + a2


def slice_axis(t, k, start, stop, stride):
  """t[..., start:stop:stride, ...] with 0 <= start <= stop <= size."""
  ax = t.axes[k]
  size = axis_size(ax)
  stride = Num.of(stride)
  if start.is_zero() and stop.same(size) and stride.same(1):
    return t
  if stride.same(1):
    n = stop - start
  else:
    n = (stop - start + stride - 1) // stride
  if not ax:
    if start.is_zero() and decide('<=', -stop + 1):
      return t
    raise Unsupported('empty slice')
  if decide('==', n):
    raise Unsupported('empty slice')
  if stride.same(1):
    f = factor_sum(ax)
    if len(f) > 1 and axis_sig(f) != axis_sig(ax):
      t = T(t.axes[:k] + (f,) + t.axes[k + 1:], t.pieces)
      ax = f
    # slice of the leading component
    if len(ax) > 1:
      rest = prod(c.size for c in ax[1:])
      a, b = start.exact_div(rest), stop.exact_div(rest)
      if a is not None and b is not None and _integral_or_zero(a) and _integral_or_zero(b):
        return _slice_lead(t, k, a, b)
    else:
      return _slice_lead(t, k, start, stop)
  if len(ax) == 1 and isinstance(ax[0], Atom):
    return _slice_affine(t, k, start, n, stride)
  if len(ax) == 1 and isinstance(ax[0], Sum) and all(axis_size(p).same(1) for p in ax[0].parts):
    idx = range(int(start), int(stop), int(stride))
    return take_parts(t, k, list(idx))
  raise Unsupported('slice of a composite axis')


def _integral_or_zero(a):
  return a.is_zero() or _integral(a)


def take_parts(t, k, idx):
  ax = t.axes[k]
  pieces = {}
  if len(idx) == 1:
    i = idx[0]
    for ch, (vs, terms) in t.pieces.items():
      if ch[k][0] == i:
        pieces[ch[:k] + (ch[k][1:],) + ch[k + 1:]] = (vs, terms)
    return T(t.axes[:k] + (ax[0].parts[i],) + t.axes[k + 1:], pieces)
  pos = {i: p for p, i in enumerate(idx)}
  for ch, (vs, terms) in t.pieces.items():
    if ch[k][0] in pos:
      pieces[ch[:k] + ((pos[ch[k][0]],) + ch[k][1:],) + ch[k + 1:]] = (vs, terms)
  return T(t.axes[:k] + ((Sum([ax[0].parts[i] for i in idx]),),) + t.axes[k + 1:], pieces)


def _slice_lead(t, k, start, stop):
  """Slice the first component of axis k."""
  ax = t.axes[k]
  c = ax[0]
  if isinstance(c, Atom):
    n = stop - start
    if start.is_zero() and (n.same(c.size)):
      return t
    pieces = {}
    one = n.same(1) or (num.CTX.known('==', n - 1) is True if num.CTX.any else decide('==', n - 1))
    for ch, (vs, terms) in t.pieces.items():
      v = vs[k][0]
      if one:
        w = ()
        m = {v: ('c', start.key)}
      else:
        nw = fresh(n)
        w = (nw,)
        m = {v: E.affine(nw, start, Num.const(1))}
      nvs = vs[:k] + (w + vs[k][1:],) + vs[k + 1:]
      ext = set(x for g in nvs for x in g)
      nts = simplify([(x, subst_nodes(nd, m)) for x, nd in terms], ext)
      if nts:
        pieces[ch] = (nvs, nts)
    na = (() if one else (Atom(n),)) + ax[1:]
    return T(t.axes[:k] + (na,) + t.axes[k + 1:], pieces)
  # Sum: boundaries must coincide with parts, or the slice lies in one part.
  offs = [Num.const(0)]
  for p in c.parts:
    offs.append(offs[-1] + axis_size(p))
  a = b = None
  for i, o in enumerate(offs):
    if o.same(start):
      a = i
    if o.same(stop):
      b = i
  if a is None or b is None:
    for i, o in enumerate(offs):
      if a is None and decide('==', o - start):
        a = i
      if b is None and decide('==', o - stop):
        b = i
  if a is not None and b is not None and a < b:
    r = take_parts(T(t.axes[:k] + ((c,),) + t.axes[k + 1:], {}), k, list(range(a, b)))
    pieces = {}
    for ch, (vs, terms) in t.pieces.items():
      p = ch[k][0]
      if a <= p < b:
        nk = ch[k][1:] if b - a == 1 else (p - a,) + ch[k][1:]
        pieces[ch[:k] + (nk,) + ch[k + 1:]] = (vs, terms)
    return T(t.axes[:k] + (r.axes[k] + ax[1:],) + t.axes[k + 1:], pieces)
  # general: cut every part
  segs = []
  for i in range(len(c.parts)):
    lo, hi = offs[i], offs[i + 1]
    s = start if decide('<', lo - start) else lo
    e = stop if decide('<', stop - hi) else hi
    if decide('<', s - e):
      one = T(t.axes[:k] + (c.parts[i] + ax[1:],) + t.axes[k + 1:],
              {ch[:k] + (ch[k][1:],) + ch[k + 1:]: pv for ch, pv in t.pieces.items() if ch[k][0] == i})
      if len(c.parts[i]) > 1:
        raise Unsupported('slice inside a product part')
      if c.parts[i]:
        one = _slice_lead(one, k, s - lo, e - lo)
      segs.append(one)
  return concat(segs, k)


def _slice_affine(t, k, start, n, stride):
  pieces = {}
  one = decide('==', n - 1)
  for ch, (vs, terms) in t.pieces.items():
    v = vs[k][0]
    if one:
      nv, m = (), {v: ('c', start.key)}
    else:
      w = fresh(n)
      nv, m = (w,), {v: E.affine(w, start, stride)}
    pieces[ch] = (vs[:k] + (nv,) + vs[k + 1:], [(x, subst_nodes(nd, m)) for x, nd in terms])
  return T(t.axes[:k] + (() if one else (Atom(n),),) + t.axes[k + 1:], pieces)


# -- comparison ---------------------------------------------------------------
def difference(a, b):
  """None if a == b is proved, else a description of the first difference."""
  if a.rank != b.rank:
    return 'rank %d vs %d' % (a.rank, b.rank)
  for k in range(a.rank):
    s1, s2 = axis_size(a.axes[k]), axis_size(b.axes[k])
    if not sizes_equal(s1, s2):
      return 'axis %d has size %s, expected %s' % (k, s1, s2)
  for _ in range(2):
    for k in range(a.rank):
      ref = unify(a.axes[k], b.axes[k])
      a, b = align(a, k, ref), align(b, k, ref)
  for ch in sorted(set(a.pieces) | set(b.pieces), key=repr):
    ka = canon_piece(a.pieces.get(ch))
    kb = canon_piece(b.pieces.get(ch))
    if ka != kb and not _same_up_to_rounding(ka, kb) and not _same_factored(a.pieces.get(ch), b.pieces.get(ch)):
      return ch, a.pieces.get(ch), b.pieces.get(ch)
  return None


def _same_factored(p, q):
  """Equality in the normal form that expands factorised matrices."""
  if not any(h[0] in 'QU' for h in E.S.hsize if isinstance(h[0], str) and len(h[0]) == 1):
    return False
  E.S.factored = True
  try:
    ka, kb = canon_piece(p), canon_piece(q)
  finally:
    E.S.factored = False
  return ka == kb


def _same_up_to_rounding(ka, kb):
  """Keys that differ only by rounding of floating-point constants."""
  if len(ka) != len(kb):
    return False
  for (x, c), (y, d) in zip(ka, kb):
    if x != y:
      return False
    c, d = Num(dict(c)), Num(dict(d))
    if c.same(d):
      continue
    if not (c.is_const() and d.is_const()):
      return False
    c, d = c.const_value(), d.const_value()
    if max(c.denominator, d.denominator) < 10 ** 9 or abs(c - d) > abs(d) * Fraction(1, 10 ** 10):
      return False
  return True


def canon_piece(p):
  if p is None:
    return ()
  vs, terms = p
  ext = [v for g in vs for v in g]
  return E.canon(simplify(terms, set(ext)), ext)


# -- nonlinear operations -----------------------------------------------------
def _single_piece(t, what):
  for ax in t.axes:
    for c in ax:
      if isinstance(c, Sum):
        raise Unsupported('%s of a tensor with concatenated axes' % what)
  for ch, pv in t.pieces.items():
    return pv
  vs = tuple(tuple(fresh(c.size) for c in ax) for ax in t.axes)
  return vs, []


def _mat_def(t, kind, **extra):
  vs, terms = _single_piece(t, kind)
  nb = sum(len(g) for g in vs[:-2])
  nr, nc = len(vs[-2]), len(vs[-1])
  ext = [v for g in vs for v in g]
  did = E.intern('mat', simplify(terms, set(ext)), ext, (nb, nr, nc), **extra)
  return did, nb, nr, nc


def qr(t):
  m, n = axis_size(t.axes[-2]), axis_size(t.axes[-1])
  k = nmin(m, n)
  kax = mk_axis(k)
  did, nb, nr, nc = _mat_def(t, 'qr', k_axis=bool(kax))
  E.S.inner_def[did]['k_axis'] = bool(kax)
  qh, rh = ('Q', did), ('R', did)
  if kax:
    E.S.info[qh] = {'orth': [(tuple(range(nb, nb + nr)), (nb + nr,), tuple(range(nb)))]}
  else:
    E.S.info[qh] = {'orth': [(tuple(range(nb, nb + nr)), (), tuple(range(nb)))]}
  q = atom_axes(qh, t.axes[:-1] + (kax,))
  r = atom_axes(rh, t.axes[:-2] + (kax, t.axes[-1]))
  return q, r


def factor(t, k, tag):
  """Some q, r with q r = t and orthonormal columns of q: [.., m, k], [.., k, n].
  tag: tells different factorisations of one matrix apart."""
  kax = mk_axis(k)
  vs, terms = _single_piece(t, 'factor')
  nb = sum(len(g) for g in vs[:-2])
  nr, nc = len(vs[-2]), len(vs[-1])
  ext = [v for g in vs for v in g]
  did = E.intern('factor:' + tag, simplify(terms, set(ext)), ext, (nb, nr, nc), k_axis=bool(kax))
  E.S.info[('Q', did)] = {'orth': [(tuple(range(nb, nb + nr)), (nb + nr,) if kax else (), tuple(range(nb)))]}
  return atom_axes(('Q', did), t.axes[:-1] + (kax,)), atom_axes(('R', did), t.axes[:-2] + (kax, t.axes[-1]))


def svd(t):
  m, n = axis_size(t.axes[-2]), axis_size(t.axes[-1])
  k = nmin(m, n)
  kax = mk_axis(k)
  did, nb, nr, nc = _mat_def(t, 'svd', k_axis=bool(kax))
  E.S.inner_def[did]['k_axis'] = bool(kax)
  uh, sh, vh = ('U', did), ('S', did), ('V', did)
  fu = (nb + nr,) if kax else ()
  fv = (nb + nc,) if kax else ()
  E.S.info[uh] = {'orth': [(tuple(range(nb, nb + nr)), fu, tuple(range(nb)))]}
  E.S.info[vh] = {'orth': [(tuple(range(nb, nb + nc)), fv, tuple(range(nb)))]}
  u = atom_axes(uh, t.axes[:-1] + (kax,))
  s = atom_axes(sh, t.axes[:-2] + (kax,))
  v = atom_axes(vh, t.axes[:-2] + (t.axes[-1], kax))
  return s, u, v


def inv(t):
  if not sizes_equal(axis_size(t.axes[-2]), axis_size(t.axes[-1])):
    raise InvalidArgument('inv of a non-square matrix')
  did, nb, nr, nc = _mat_def(t, 'inv')
  if nr == 0:
    return pow_(t, -1)
  return atom_axes(('inv', did), t.axes[:-2] + (t.axes[-1], t.axes[-2]))


def cholesky(t):
  if not sizes_equal(axis_size(t.axes[-2]), axis_size(t.axes[-1])):
    raise InvalidArgument('cholesky of a non-square matrix')
  did, nb, nr, nc = _mat_def(t, 'chol')
  if nr == 0:
    return pow_(t, Fraction(1, 2))
  return atom_axes(('chol', did), t.axes[:-2] + (t.axes[-2], t.axes[-1]))


def det(t):
  if not sizes_equal(axis_size(t.axes[-2]), axis_size(t.axes[-1])):
    raise InvalidArgument('det of a non-square matrix')
  did, nb, nr, nc = _mat_def(t, 'det')
  if nr == 0:
    return squeeze_axis(squeeze_axis(t, t.rank - 1), t.rank - 2)
  axes = t.axes[:-2]
  def f(ch, vs):
    args = [v for g in vs for v in g]
    return [(E.ONE, (E.pw(('det', did), 1, args),))]
  return make(axes, f)


def unary(t, kind, zero, const_fn=None, term_fn=None):
  """Elementwise function: an opaque scalar node of the interned argument."""
  allch = [tuple(c for c, _ in combo)
           for combo in itertools.product(*[enum_axis(a) for a in t.axes])]
  pieces = {}
  for combo in itertools.product(*[enum_axis(a) for a in t.axes]):
    ch = tuple(c for c, _ in combo)
    if ch not in t.pieces:
      z = Num.of(zero) if zero is not None else None
      if z is None:
        raise Unsupported('%s of zero' % kind)
      if not z.is_zero():
        pieces[ch] = (tuple(tuple(fresh(s) for s in sz) for _, sz in combo), [(z, ())])
      continue
    vs, terms = t.pieces[ch]
    ext = [v for g in vs for v in g]
    terms = simplify(terms, set(ext))
    r = None
    if len(terms) == 1 and not terms[0][1] and const_fn is not None:
      r = const_fn(terms[0][0])
      r = None if r is None else [(r, ())]
    if r is None and term_fn is not None:
      r = term_fn(terms, ext)
    if r is None:
      r = [(E.ONE, (fn_node(kind, terms, ext, 1),))]
    r = [(c, n) for c, n in r if not c.is_zero()]
    if r:
      pieces[ch] = (vs, r)
  return T(t.axes, pieces)


def fn_node(kind, terms, ext, e):
  used = set()
  for c, n in terms:
    used |= E.term_vars(n)
  args = [v for v in ext if v in used]
  if kind == 'id' and len(terms) == 1 and terms[0][0].same(1) and len(terms[0][1]) == 1:
    h, a = terms[0][1][0]
    if h[0] == 'pw' and (Num(dict(h[2])).same(1) or is_positive(terms, set(ext))):
      return E.pw(h[1], Num(dict(h[2])) * Num.of(e), a)
  did = E.intern('fn', terms, args, (len(args),))
  return E.pw((kind, did), e, args)


def _pure_scalars(terms, ext):
  """Single term made of pw nodes only with external args."""
  if len(terms) != 1:
    return False
  c, n = terms[0]
  return all(h[0] == 'pw' and all(v in ext for a in args for v in E.arg_vars(a)) for h, args in n)


def is_positive(terms, ext):
  if not _pure_scalars(terms, ext):
    return False
  c, n = terms[0]
  if not (c.is_monomial() and list(c.t.values())[0] > 0):
    return False
  return all(h[1][0] in ('max', 'exp', 'pos') or h[1] in E.S.positive for h, _ in n)


def pow_(t, p):
  p = Num.of(p)
  if p.same(1):
    return t
  if p.is_const() and p.const_value().denominator == 1 and 0 <= p.const_value() <= 4:
    k = int(p.const_value())
    if k == 0:
      return fill(t.sizes(), 1)
    r = t
    for _ in range(k - 1):
      r = bmul(r, t)
    return r

  def cf(c):
    return c ** p if p.is_const() else None

  def tf_(terms, ext):
    if _pure_scalars(terms, ext) and (is_positive(terms, ext) or (
        len(terms[0][1]) == 1 and terms[0][0].same(1) and Num(dict(terms[0][1][0][0][2])).same(1))):
      c, n = terms[0]
      if not p.is_const() and not c.same(1):
        return [(E.ONE, (E.pw(('id', E.intern('fn', [(c, ())], [], (0,))), p, ()),) +
                 tuple(E.pw(h[1], Num(dict(h[2])) * p, a) for h, a in n))]
      return [(c ** p if not c.same(1) else E.ONE,
               tuple(E.pw(h[1], Num(dict(h[2])) * p, a) for h, a in n))]
    return [(E.ONE, (fn_node('id', terms, ext, p),))]
  zero = 0 if (not p.is_const() or p.const_value() > 0) else None
  return unary(t, 'id', zero, cf, tf_)


def sqrt(t):
  return pow_(t, Fraction(1, 2))


def reciprocal(t):
  return pow_(t, -1)


def abs_(t):
  def tf_(terms, ext):
    if is_positive(terms, ext):
      return terms
    return None
  return unary(t, 'abs', 0, lambda c: abs(c), tf_)


def sign(t):
  def cf(c):
    if c.is_zero():
      return Num.const(0)
    return Num.const(1) if decide('<', -c) else Num.const(-1)
  return unary(t, 'sign', 0, cf)


def log(t):
  def cf(c):
    if c.same(1):
      return Num.const(0)
    return None

  def tf_(terms, ext):
    if is_positive(terms, ext) and terms[0][0].same(1):
      out = []
      for h, a in terms[0][1]:
        base = h[1]
        did = E.intern('fn', [(E.ONE, (E.pw(base, 1, a),))], list(a), (len(a),)) \
            if all(isinstance(x, int) for x in a) else None
        if did is None:
          return None
        out.append((Num(dict(h[2])), (E.pw(('log', did), 1, a),)))
      return out
    return None
  return unary(t, 'log', None, cf, tf_)


def exp(t):
  def tf_(terms, ext):
    n = ()
    for c, nodes in terms:
      if len(nodes) != 1 or nodes[0][0][0] != 'pw' or nodes[0][0][1][0] != 'log' or \
          not Num(dict(nodes[0][0][2])).same(1):
        return None
      h, a = nodes[0]
      d = E.S.inner_def[h[1][1]]
      if len(d['terms']) != 1 or len(d['terms'][0][1]) != 1 or not d['terms'][0][0].same(1):
        return None
      bh, ba = d['terms'][0][1][0]
      if bh[0] != 'pw':
        return None
      m = dict(zip(d['ext'], a))
      n = n + (E.pw(bh[1], Num(dict(bh[2])) * c, tuple(E.subst_arg(x, m) for x in ba)),)
    return [(E.ONE, n)]
  return unary(t, 'exp', 1, None, tf_)


def maximum(t, c):
  """max(t, c) for a constant c; positive when c > 0."""
  c = Num.of(c)
  def cf(x):
    return num.nmax(x, c)
  def tf_(terms, ext):
    used = set()
    for cc, n in terms:
      used |= E.term_vars(n)
    args = [v for v in ext if v in used]
    did = E.intern('max', terms + [(c, (('maxmark',), ()))] if False else terms, args, (len(args), c.key))
    base = ('max' if c.is_const() and c.const_value() > 0 else 'max0', did)
    return [(E.ONE, (E.pw(base, 1, args),))]
  return unary(t, 'max', num.nmax(Num.const(0), c) if c.is_const() else None, cf, tf_)


def diagonal(t, i, j):
  """t with axes i and j identified (kept at position i)."""
  if not sizes_equal(axis_size(t.axes[i]), axis_size(t.axes[j])):
    raise InvalidArgument('diagonal of a non-square axis pair')
  ref = unify(t.axes[i], t.axes[j])
  t = align(align(t, i, ref), j, ref)
  pieces = {}
  for ch, (vs, terms) in t.pieces.items():
    if ch[i] != ch[j]:
      continue
    m = dict(zip(vs[j], vs[i]))
    nvs = vs[:j] + vs[j + 1:]
    ext = set(v for g in nvs for v in g)
    nts = simplify([(c, subst_nodes(n, m)) for c, n in terms], ext)
    if nts:
      pieces[ch[:j] + ch[j + 1:]] = (nvs, nts)
  return T(t.axes[:j] + t.axes[j + 1:], pieces)


# -- indexing with symbolic index data -----------------------------------------
def _unit_range(h):
  r = E.S.info.get(h, {}).get('range')
  return r is not None and r.same(1)


def _index_arg(terms):
  """The index argument denoted by integer-valued terms."""
  if not terms:
    return ('c', Num.const(0).key)
  if len(terms) == 1:
    c, nodes = terms[0]
    if not nodes:
      return ('c', c.key)
    if c.same(1) and len(nodes) == 1:
      h, a = nodes[0]
      return ('t', h, a)
  # mixed radix: sum of c_i * iv_i with c_i = product of the later ranges
  ts = []
  for c, nodes in terms:
    if any(_unit_range(n[0]) for n in nodes):
      continue
    if len(nodes) != 1 or E.S.info.get(nodes[0][0], {}).get('range') is None:
      raise Unsupported('index arithmetic')
    ts.append((c, nodes[0]))
  if not ts:
    return ('c', Num.const(0).key)
  if len(ts) == 1 and ts[0][0].same(1):
    return ('t',) + ts[0][1]
  order = []
  acc = Num.const(1)
  left = list(ts)
  while left:
    nxt = [x for x in left if x[0].same(acc)]
    if len(nxt) != 1:
      raise Unsupported('index arithmetic is not a mixed-radix number')
    left.remove(nxt[0])
    rng = E.S.info[nxt[0][1][0]]['range']
    order.insert(0, (('t',) + nxt[0][1], rng.key))
    acc = acc * rng
  return E.join(tuple(order))


def gather_T(t, axis, idx):
  """t[..., idx, ...]: the axes of idx replace the axis."""
  return gather_multi(t, axis, [idx])


def gather_nd_T(t, cols):
  return gather_multi(t, 0, cols)


def gather_multi(t, axis, cols):
  n = len(cols)
  # bring the index tensors to a common structure
  base = cols[0]
  for c in cols[1:]:
    for k in range(base.rank):
      ref = unify(base.axes[k], c.axes[k])
      base, c = align(base, k, ref), align(c, k, ref)
  cols = [c for c in cols]
  for q in range(n):
    for k in range(base.rank):
      cols[q] = align(cols[q], k, base.axes[k])
  idx_axes = base.axes
  pieces = {}
  for combo in itertools.product(*[enum_axis(a) for a in idx_axes]):
    ich = tuple(c for c, _ in combo)
    ivs = tuple(tuple(fresh(s) for s in sz) for _, sz in combo)
    args = []
    for q in range(n):
      if ich in cols[q].pieces:
        vs, terms = cols[q].pieces[ich]
        m = dict(zip([v for g in vs for v in g], [v for g in ivs for v in g]))
        terms = [(c, subst_nodes(nd, m)) for c, nd in terms]
      else:
        terms = []
      args.append(_index_arg(terms))
    sub = t
    sels = []
    for q in range(n):
      ax = t.axes[axis + q]
      sels.append(_locate_arg(ax, args[q]))
    for ch, (vs, terms) in t.pieces.items():
      ok = True
      m = {}
      for q in range(n):
        if ch[axis + q] != sels[q][0]:
          ok = False
          break
        m.update(dict(zip(vs[axis + q], sels[q][1])))
      if not ok:
        continue
      keep = set(v for g in vs for v in g)
      rest = vs[:axis] + vs[axis + n:]
      # rename the remaining external variables apart from other pieces
      ren = {v: fresh(E.S.vsize[v]) for g in rest for v in g}
      m.update(ren)
      rest = tuple(tuple(ren[v] for v in g) for g in rest)
      nvs = rest[:axis] + ivs + rest[axis:]
      iv2 = {v: fresh(E.S.vsize[v]) for g in ivs for v in g}
      nts = [(c, subst_nodes(subst_nodes(E.refresh(nd, keep), m), iv2)) for c, nd in terms]
      nvs = rest[:axis] + tuple(tuple(iv2[v] for v in g) for g in ivs) + rest[axis:]
      ext = set(v for g in nvs for v in g)
      nts = simplify(nts, ext)
      if nts:
        pieces[ch[:axis] + ich + ch[axis + n:]] = (nvs, nts)
  return T(t.axes[:axis] + tuple(idx_axes) + t.axes[axis + n:], pieces)


def _locate_arg(axis, a):
  """(choice, args) of the flat index a within an axis."""
  if not axis:
    return (), ()
  if len(axis) == 1 and isinstance(axis[0], Atom):
    _check_range(a, axis[0].size)
    return (), (a,)
  if a[0] == 'c':
    return locate(axis, Num(dict(a[1])))
  if a[0] == 'j' and all(isinstance(c, Atom) for c in axis) and len(a[1]) == len(axis) and \
      all(s == c.size.key for (_, s), c in zip(a[1], axis)):
    return (), tuple(x for x, _ in a[1])
  raise Unsupported('symbolic index into a composite axis')


def _check_range(a, size):
  if a[0] == 'c':
    i = Num(dict(a[1]))
    if decide('<', i) or not decide('<', i - size):
      raise InvalidArgument('index %s out of range %s' % (i, size))
    return
  if a[0] == 't':
    rng = E.S.info.get(a[1], {}).get('range')
  elif a[0] == 'j':
    rng = prod(Num(dict(s)) for _, s in a[1])
  else:
    rng = None
  if rng is None or not num.known_le(rng, size):
    raise Unsupported('an index that may be out of range')
