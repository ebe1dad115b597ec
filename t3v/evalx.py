"""Numeric evaluation of symbolic tensors at concrete dimensions.

Used to classify an equality that was not proved: if the two sides evaluate to
different numbers the obligation is refuted, otherwise it is only unproved.
"""
import itertools

import numpy as np

from t3v import expr as E
from t3v.num import Num, Unsupported
from t3v.tensor import Atom, axis_size


class Evaluator(object):

  def __init__(self, env, seed=0):
    self.env = env
    self.rng = np.random.default_rng(seed)
    self.heads = {}

  def size(self, n):
    x = Num.of(n).eval(self.env)
    k = int(round(float(x)))
    if abs(float(x) - k) > 1e-9:
      raise Unsupported('non-integral size')
    return k

  def num(self, n):
    return float(n.eval(self.env))

  # -- tensors ----------------------------------------------------------------
  def tensor(self, t):
    out = np.zeros([self.size(s) for s in t.sizes()])
    for ch, (vs, terms) in t.pieces.items():
      ext = [v for g in vs for v in g]
      val = self.terms(terms, ext)
      sel = [self.axis_positions(ax, ch[k], vs[k]) for k, ax in enumerate(t.axes)]
      # sel[k]: array of positions with one axis per variable of the group
      shape = []
      for s in sel:
        shape.append(s.size)
      out[np.ix_(*[s.reshape(-1) for s in sel])] = val.reshape(shape) if sel else val
    return out

  def axis_positions(self, axis, choice, vs):
    """Flat positions on the axis for every value of the variables."""
    pos, ci, vi = self._pos(axis, choice, 0, 0)
    return pos

  def _pos(self, axis, choice, ci, vi):
    pos = np.zeros((), dtype=int)
    for c in axis:
      n = self.size(c.size)
      if isinstance(c, Atom):
        p = np.arange(n)
        vi += 1
      else:
        part = choice[ci]
        ci += 1
        off = sum(self.size(axis_size(q)) for q in c.parts[:part])
        p, ci, vi = self._pos(c.parts[part], choice, ci, vi)
        p = p + off
      pos = np.add.outer(pos * n, p)
    return pos, ci, vi

  def terms(self, terms, ext):
    shape = [self.size(E.S.vsize[v]) for v in ext]
    out = np.zeros(shape)
    for c, nodes in terms:
      out = out + self.num(c) * self.product(nodes, ext, shape)
    return out

  def product(self, nodes, ext, shape):
    names = {}
    ops = []
    for n in nodes:
      arr, vs = self.node(n)
      ops.append(arr)
      ops.append([names.setdefault(v, len(names)) for v in vs])
    for v, s in zip(ext, shape):
      if v not in names:
        ops.append(np.ones(s))
        ops.append([names.setdefault(v, len(names))])
    if not ops:
      return np.ones(())
    if len(names) > 50:
      raise Unsupported('too many indices for numeric evaluation')
    return np.einsum(*(ops + [[names[v] for v in ext]]), optimize='greedy')

  def node(self, n):
    h, args = n
    vs = []
    for v in E.node_vars(n):
      if v not in vs:
        vs.append(v)
    grid = {}
    for k, v in enumerate(vs):
      sh = [1] * len(vs)
      s = self.size(E.S.vsize[v])
      sh[k] = s
      grid[v] = np.arange(s).reshape(sh)
    full = tuple(self.size(E.S.vsize[v]) for v in vs)
    idx = [np.broadcast_to(self.arg(a, grid), full) for a in args]
    if h == E.DELTA:
      return (idx[0] == idx[1]).astype(float), vs
    if h == ('one',):
      return np.ones(full), vs
    arr = self.head(h)
    if not args:
      return arr, vs
    return arr[tuple(idx)], vs

  def arg(self, a, grid):
    if isinstance(a, int):
      return grid[a]
    if a[0] == 'c':
      return np.array(self.size(Num(dict(a[1]))))
    if a[0] == 'o':
      return self.size(Num(dict(a[2]))) + int(round(self.num(Num(dict(a[3]))))) * grid[a[1]]
    if a[0] == 'j':
      r = 0
      for x, s in a[1]:
        r = r * self.size(Num(dict(s))) + self.arg(x, grid)
      return np.asarray(r)
    arr = self.head(a[1])
    return arr[tuple(np.broadcast_arrays(*[self.arg(x, grid) for x in a[2]]))].astype(int) if a[2] \
        else arr.astype(int)

  # -- heads ------------------------------------------------------------------
  def head(self, h):
    if h not in self.heads:
      self.heads[h] = self.make(h)
    return self.heads[h]

  def make(self, h):
    if h in E.S.gdef:
      t = E.S.gdef[h]
      v = self.tensor(t)
      return v.reshape([self.size(s) for s in E.S.hsize[h]])
    k = h[0]
    if k in ('Q', 'R', 'U', 'S', 'V', 'inv', 'chol'):
      return self.factor(h)
    if k == 'pw':
      return self.power(h)
    shape = [self.size(s) for s in E.S.hsize[h]]
    inf = E.S.info.get(h, {})
    if 'range' in inf:
      return self.rng.integers(0, self.size(inf['range']), size=shape)
    if inf.get('spd'):
      n = shape[-1] if shape else 1
      a = self.rng.normal(size=(int(np.prod(shape[:-2], initial=1)), n, n))
      return (np.einsum('bij,bkj->bik', a, a) + n * np.eye(n)).reshape(shape)
    if inf.get('orth'):
      (sump, freep, batchp) = inf['orth'][0]
      if batchp:
        raise Unsupported('orthogonal batch atom')
      m = int(np.prod([shape[p] for p in sump], initial=1))
      n = int(np.prod([shape[p] for p in freep], initial=1))
      if m < n:
        raise Unsupported('orthogonal atom with more columns than rows')
      q = np.linalg.qr(self.rng.normal(size=(m, n)))[0]
      order = list(sump) + list(freep)
      return np.transpose(q.reshape([shape[p] for p in order]), np.argsort(order))
    if inf.get('positive'):
      return self.rng.uniform(0.5, 2, size=shape)
    return self.rng.normal(size=shape)

  def matrix(self, did):
    d = E.S.inner_def[did]
    key = ('mat', did)
    if key not in self.heads:
      v = self.terms(d['terms'], d['ext'])
      nb, nr, nc = d['groups']
      sh = v.shape
      m = v.reshape((int(np.prod(sh[:nb], initial=1)), int(np.prod(sh[nb:nb + nr], initial=1)),
                     int(np.prod(sh[nb + nr:], initial=1))))
      self.heads[key] = (m, sh[:nb], sh[nb:nb + nr], sh[nb + nr:])
    return self.heads[key]

  def factor(self, h):
    m, sb, sr, sc = self.matrix(h[1])
    kax = E.S.inner_def[h[1]].get('k_axis')
    k = (min(m.shape[1], m.shape[2]),) if kax else ()
    kind = h[0]
    if kind in 'QR':
      q, r = np.linalg.qr(m)
      return q.reshape(sb + sr + k) if kind == 'Q' else r.reshape(sb + k + sc)
    if kind in 'USV':
      u, s, vt = np.linalg.svd(m, full_matrices=False)
      if kind == 'U':
        return u.reshape(sb + sr + k)
      if kind == 'S':
        return s.reshape(sb + k)
      return np.swapaxes(vt, 1, 2).reshape(sb + sc + k)
    if kind == 'inv':
      return np.linalg.inv(m).reshape(sb + sc + sr)
    return np.linalg.cholesky(m).reshape(sb + sr + sc)

  def power(self, h):
    kind, did = h[1]
    e = self.num(Num(dict(h[2])))
    d = E.S.inner_def[did]
    if kind == 'det':
      m, sb, sr, sc = self.matrix(did)
      v = np.linalg.det(m).reshape(sb)
    else:
      v = self.terms(d['terms'], d['ext'])
    if kind == 'abs':
      v = np.abs(v)
    elif kind == 'sign':
      v = np.sign(v)
    elif kind == 'log':
      v = np.log(v)
    elif kind == 'exp':
      v = np.exp(v)
    elif kind in ('max', 'max0'):
      v = np.maximum(v, self.num(Num(dict(d['groups'][1]))))
    elif kind == 'act_relu':
      v = np.maximum(v, 0)
    elif kind == 'act_tanh':
      v = np.tanh(v)
    elif kind == 'act_sigmoid':
      v = 1 / (1 + np.exp(-v))
    elif kind == 'act_softplus':
      v = np.log1p(np.exp(v))
    elif kind not in ('id', 'det', 'pos'):
      raise Unsupported('numeric value of %s' % kind)
    if e == 1:
      return v
    if e == int(e):
      return v ** int(e)
    with np.errstate(invalid='ignore'):
      return v ** e
