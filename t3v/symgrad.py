"""Differentiation of index-notation expressions (tf.GradientTape)."""
import itertools

from t3v import expr as E
from t3v import tensor as X
from t3v.num import Num, Unsupported

_N = [0]


def _flat(x):
  if isinstance(x, (list, tuple)):
    out = []
    for i in x:
      out.extend(_flat(i))
    return out
  return [x]


def watch_tensor(x):
  """Replace the value of a tensor by an opaque variable with that value."""
  head = _pure(x)
  if head is not None:
    return head
  t = x.T_
  if any(isinstance(c, X.Sum) for ax in t.axes for c in ax):
    t2 = T_flatten(t)
  else:
    t2 = t
  _N[0] += 1
  head = ('g', _N[0])
  v = X.atom_axes(head, t2.axes)
  if not E.S.hsize.get(head) and head not in E.S.hsize:
    E.S.hsize[head] = ()
  E.S.gdef[head] = t
  x._t, x._known = v, None
  return head


def T_flatten(t):
  return X.T([X.mk_axis(X.axis_size(a)) for a in t.axes], {})


def _pure(x):
  t = x._t
  if t is None or len(t.pieces) != 1:
    return None
  (vs, terms), = t.pieces.values()
  if len(terms) == 1 and terms[0][0].same(1) and len(terms[0][1]) == 1 and terms[0][1][0][0] in E.S.gdef:
    return terms[0][1][0][0]
  return None


def depends(terms, head):
  for c, nodes in terms:
    for h, args in nodes:
      if head_depends(h, head):
        return True
  return False


def head_depends(h, head):
  if h == head:
    return True
  did = None
  if h[0] == 'pw':
    did = h[1][1]
  elif h[0] in ('Q', 'R', 'U', 'S', 'V', 'inv', 'chol'):
    did = h[1]
  if did is not None and did in E.S.inner_def:
    return depends(E.S.inner_def[did]['terms'], head)
  return False


def d_terms(terms, head, outvars):
  """Derivative of a scalar expression with respect to head[outvars]."""
  out = []
  for coef, nodes in terms:
    for i, (h, args) in enumerate(nodes):
      if not head_depends(h, head):
        continue
      rest = nodes[:i] + nodes[i + 1:]
      if h == head:
        new = rest
        for a, o in zip(args, outvars):
          new = new + ((E.DELTA, (a, o)),)
        out.append((coef, new))
      elif h[0] == 'pw':
        base, e = h[1], Num(dict(h[2]))
        d = E.S.inner_def[base[1]]
        keep = set(d['ext'])
        inner = [(c, E.refresh(n, keep)) for c, n in d['terms']]
        m = dict(zip(d['ext'], args))
        inner = [(c, E.subst_nodes(n, m)) for c, n in inner]
        if base[0] == 'id':
          pre, scale = ((E.pw(base, e - 1, args),) if not e.same(1) else ()), e
        elif base[0] == 'log' and e.same(1):
          pre, scale = (E.pw(('id', base[1]), -1, args),), Num.const(1)
        elif base[0] == 'exp' and e.same(1):
          pre, scale = (E.pw(base, 1, args),), Num.const(1)
        elif base[0] == 'abs' and e.same(1):
          pre, scale = (E.pw(('sign', base[1]), 1, args),), Num.const(1)
        else:
          raise Unsupported('derivative of %s' % (base[0],))
        for c, n in d_terms(inner, head, outvars):
          out.append((coef * scale * c, rest + pre + n))
      else:
        raise Unsupported('derivative of a factorisation')
  return out


def gradient_T(t, head, like):
  """Gradient of the scalar T t with respect to the variable `head`."""
  if t.rank != 0:
    t = X.reduce_sum(t, list(range(t.rank)))
  axes = like.axes
  terms = t.pieces[()][1] if () in t.pieces else []
  def f(ch, vs):
    outv = [v for g in vs for v in g]
    return E.simplify(d_terms(terms, head, outv), set(outv))
  return X.make(axes, f)


def resolve(t, depth=0):
  """Substitute the values of differentiation variables."""
  if not E.S.gdef or t is None:
    return t
  if depth > 20:
    raise Unsupported('nested differentiation variables')
  pieces = {}
  changed = False
  for ch, (vs, terms) in t.pieces.items():
    out = []
    ext = set(v for g in vs for v in g)
    for coef, nodes in terms:
      r = _resolve_term(coef, nodes)
      if r is None:
        out.append((coef, nodes))
      else:
        changed = True
        out.extend(r)
    out = E.simplify(out, ext)
    if out:
      pieces[ch] = (vs, out)
  if not changed:
    return t
  return resolve(X.T(t.axes, pieces), depth + 1)


def _resolve_term(coef, nodes):
  for i, (h, args) in enumerate(nodes):
    if h in E.S.gdef:
      d = E.S.gdef[h]
      rest = nodes[:i] + nodes[i + 1:]
      if any(isinstance(c, X.Sum) for ax in d.axes for c in ax):
        raise Unsupported('differentiation variable with concatenated axes')
      out = []
      for ch, (vs, terms) in d.pieces.items():
        flat = [v for g in vs for v in g]
        m = dict(zip(flat, args))
        for c, n in terms:
          nn = E.subst_nodes(E.refresh(n, set(flat)), m)
          new = rest + nn
          before = set(v for a in args for v in E.arg_vars(a))
          cc = coef * c
          # a variable that vanishes is either external or summed: the caller
          # keeps the sum by multiplying with its range when it is bound.
          out.append((cc, new, before))
      return [_fix(c, n, b) for c, n, b in out]
    if h[0] == 'pw' and any(head_depends(h, g) for g in E.S.gdef):
      base, e = h[1], Num(dict(h[2]))
      d = E.S.inner_def[base[1]]
      ts = [(c, n) for c, n in d['terms']]
      for _ in range(10):
        new = []
        ch = False
        for c, n in ts:
          r = _resolve_term(c, n)
          if r is None:
            new.append((c, n))
          else:
            ch = True
            new.extend(r)
        ts = new
        if not ch:
          break
      ts = E.simplify(ts, set(d['ext']))
      if base[0] == 'id' and not ts:
        raise Unsupported('power of zero')
      did = E.intern('fn', ts, list(d['ext']), d['groups'])
      rest = nodes[:i] + nodes[i + 1:]
      return [(coef, rest + (E.pw((base[0], did), e, args),))]
  return None


def _fix(c, new, before):
  left = E.term_vars(new)
  lost = [v for v in before if v not in left]
  if lost:
    # keep the summation explicit with a full-range marker
    for v in lost:
      new = new + ((('one',), (v,)),)
  return c, new


class GradientTape(object):

  def __init__(self, persistent=False, watch_accessed_variables=True):
    self.watched = []

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def watch(self, x):
    for t in _flat(x):
      watch_tensor(t)

  def gradient(self, target, sources, output_gradients=None, unconnected_gradients=None):
    from t3v import symtf
    many = isinstance(sources, (list, tuple))
    outs = []
    for s in _flat(sources):
      head = _pure(s)
      if head is None:
        raise Unsupported('gradient with respect to an unwatched tensor')
      g = gradient_T(target.T_, head, s.T_)
      if not g.pieces and not any(depends(p[1], head) for p in target.T_.pieces.values()):
        outs.append(None)
        continue
      outs.append(symtf.Tensor(g, s.dtype))
    return outs if many else outs[0]


def gradients(ys, xs, **k):
  raise Unsupported('tf.gradients in eager mode')
