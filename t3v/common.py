"""Contract vocabulary shared by the symbolic and the concrete backend.

Everything here is written against the abstract backend B: symbolic values for
proofs, numpy values for replays on the real TensorFlow.
"""


def install(cls):
  """Add the shared methods to a backend class."""
  for f in (tt, tt_from_cores, den, dense, cores_of, is_batch, is_matrix, wf, ranks, modes, finish, frame,
            prod, inner, same_tt, ints, graph, hidden_sizes, static_sizes):
    setattr(cls, f.__name__, f)


def prod(B, xs):
  r = 1
  for x in xs:
    r = r * x
  return r


def ints(B, x):
  """Sizes reported by the library as plain numbers."""
  if hasattr(x, 'as_list'):
    x = x.as_list()
  if hasattr(x, 'numpy'):
    x = x.numpy()
  if hasattr(x, 'tolist'):
    x = x.tolist()
  return [B.ints(i) for i in x] if isinstance(x, (list, tuple)) else x


def modes(B, name, d):
  return [B.dim('%s%d' % (name, k + 1)) for k in range(d)]


def ranks(B, name, d):
  return [1] + [B.dim('%s%d' % (name, k)) for k in range(1, d)] + [1]


def tt(B, name, d=None, kind='tensor', batch=None, n='n', m='m', r=None, dtype=None, **kw):
  """A TT-object with opaque cores.

  n, m: prefix of the mode symbols or explicit lists; r likewise; batch: None,
  a dimension or a symbol name.
  """
  ns = modes(B, n, d) if isinstance(n, str) else list(n)
  d = len(ns)
  rs = ranks(B, name + '_r', d) if r is None else (ranks(B, r, d) if isinstance(r, str) else list(r))
  ms = None
  if kind == 'matrix':
    ms = modes(B, m, d) if isinstance(m, str) else list(m)
  bs = [] if batch is None else [B.dim(batch) if isinstance(batch, str) else batch]
  cores = []
  for k in range(d):
    dims = bs + [rs[k], ns[k]] + ([ms[k]] if ms is not None else []) + [rs[k + 1]]
    cores.append(B.tensor('%s.%d' % (name, k), dims, dtype, **kw))
  return B.tt_from_cores(cores, ns, ms, rs, bs[0] if bs else None)


def tt_from_cores(B, cores, ns, ms=None, rs=None, batch=None):
  tf = B.tf
  raw = (tf.TensorShape(ns),) if ms is None else (tf.TensorShape(ns), tf.TensorShape(ms))
  rk = None if rs is None else tf.TensorShape(rs)
  # raw shapes are lists of lists for matrices and a plain list for tensors
  shape = list(ns) if ms is None else [list(ns), list(ms)]
  if B.held:
    cores = [tf.Variable(c) for c in cores]
  kw = dict(convert_to_tensors=False) if B.held else {}
  if batch is None:
    x = B.t3f.TensorTrain(list(cores), shape, rk, **kw)
  else:
    x = B.t3f.TensorTrainBatch(list(cores), shape, rk, batch, **kw)
  B.frame(x)
  return x


def is_batch(B, x):
  return isinstance(x, B.t3f.TensorTrainBatch)


def is_matrix(B, x):
  return len(x.tt_cores[0].shape) - (1 if B.is_batch(x) else 0) == 4


def cores_of(B, x):
  return [B.val(c) for c in x.tt_cores]


def den(B, x):
  """The tensor a TT-object stands for: axes [batch?, n1..nd] or
  [batch?, n1..nd, m1..md]; computed from the cores only."""
  cs = B.cores_of(x)
  bat, mat = B.is_batch(x), B.is_matrix(x)
  d = len(cs)
  pre = ['b'] if bat else []
  acc, letters = None, None
  for k, c in enumerate(cs):
    lab = pre + [('r', k), ('n', k)] + ([('m', k)] if mat else []) + [('r', k + 1)]
    if acc is None:
      acc, letters = c, lab
    else:
      out = [l for l in letters if l != ('r', k)] + [l for l in lab if l not in (('r', k), 'b')]
      acc = B.contract([letters, lab], [acc, c], out)
      letters = out
  final = pre + [('n', k) for k in range(d)] + ([('m', k) for k in range(d)] if mat else [])
  # boundary ranks are summed (they are one)
  return B.contract([letters], [acc], final)


def dense(B, x):
  """Value in the layout of t3f.full."""
  v = B.den(x)
  if not B.is_matrix(x):
    return v
  sh = list(v.shape)
  b = 1 if B.is_batch(x) else 0
  d = (len(sh) - b) // 2
  return B.reshape(v, sh[:b] + [B.prod(sh[b:b + d]), B.prod(sh[b + d:])])


def inner(B, x, y, batch=False):
  """Sum of the elementwise product over all axes (except a leading batch)."""
  n = x.ndim if hasattr(x, 'ndim') else len(x.shape)
  lab = ['a%d' % i for i in range(n)]
  return B.contract([lab, lab], [x, y], lab[:1] if batch else [])


def wf(B, name, x, dtype=None, shape=None, batch=None):
  """Representation invariant: the metadata describes the cores."""
  cores = x.tt_cores
  d = len(cores)
  bat = B.is_batch(x)
  o = 1 if bat else 0
  mat = B.is_matrix(x)
  shapes = [list(c.shape) for c in cores]
  B.same(name + '/core-rank', [len(s) for s in shapes], [o + (4 if mat else 3)] * d)
  ok = B.same(name + '/boundary-ranks', [shapes[0][o], shapes[-1][-1]], [1, 1])
  for k in range(d - 1):
    ok = B.same(name + '/ranks-match-%d' % k, shapes[k][-1], shapes[k + 1][o]) and ok
  B.same(name + '/ndims', x.ndims(), d)
  rs = [s[o] for s in shapes] + [shapes[-1][-1]]
  B.same(name + '/tt-ranks', list(x.get_tt_ranks()), rs)
  raw = [[s[o + 1] for s in shapes]] + ([[s[o + 2] for s in shapes]] if mat else [])
  B.same(name + '/raw-shape', [list(s) for s in x.get_raw_shape()], raw)
  B.same(name + '/is-matrix', bool(x.is_tt_matrix()), mat)
  full = [B.prod(s) for s in raw] if mat else raw[0]
  if bat:
    B.same(name + '/batch-size', x.batch_size, shapes[0][0])
    for k in range(1, d):
      B.same(name + '/batch-size-%d' % k, shapes[k][0], shapes[0][0])
    B.same(name + '/shape', list(x.get_shape()), [shapes[0][0]] + full)
  else:
    B.same(name + '/shape', list(x.get_shape()), full)
  dt = dtype if dtype is not None else B.dtype
  B.same(name + '/dtype', [c.dtype for c in cores] + [x.dtype], [dt] * (d + 1))
  if shape is not None:
    B.same(name + '/expected-shape', raw, [list(s) for s in shape])
  if batch is not None:
    B.same(name + '/expected-batch', shapes[0][0] if bat else None, batch if batch is not False else None)
  return ok


def same_tt(B, name, got, want, dtype=None):
  """got is well formed and denotes the oracle value want."""
  if B.wf(name, got, dtype):
    B.eq(name + '/value', B.den(got), want)
  else:
    B.stop('malformed result')


def hidden_sizes(B, hide, x, cores):
  """Sizes of the cores of x, None for the kinds of sizes named by hide (the
  ranks at the ends are one and stay known)."""
  o = 1 if B.is_batch(x) else 0
  d = len(cores)
  out = []
  for k, s in enumerate(cores):
    s = list(s)
    if o and 'batch' in hide:
      s[0] = None
    if 'modes' in hide:
      s[o + 1:-1] = [None] * (len(s) - o - 2)
    if 'ranks' in hide:
      if k > 0:
        s[o] = None
      if k < d - 1:
        s[-1] = None
    out.append(s)
  return out


def graph(B, name, hide, fn, *args):
  """fn(*args) as part of a graph built without knowing some sizes.

  args are TT-objects or tensors; hide names the unknown sizes ('ranks',
  'modes', 'batch' of TT-objects, 'dense' for all sizes of tensors,
  'rows' for their first).
  Sizes the results claim to know have to be the sizes they have."""
  results, static = B.in_graph(hide, fn, args)
  out = []
  for i, (r, s) in enumerate(zip(results, static)):
    if s is not None:
      raw, rk, bs = static_sizes(B, r)
      agree = lambda p, q: len(p) == len(q) and all(x is None or x == y for x, y in zip(p, q))
      B.true('%s/static-shape' % name, len(raw) == len(s[0]) and all(agree(p, q) for p, q in zip(s[0], raw)))
      B.true('%s/static-ranks' % name, agree(s[1], rk))
      B.true('%s/static-batch-size' % name, agree([s[2]], [bs]))
    out.append(r)
  return out[0] if len(out) == 1 else out


def static_sizes(B, x):
  return ([list(s) for s in x.get_raw_shape()], list(x.get_tt_ranks()), x.batch_size if B.is_batch(x) else None)


def frame(B, x):
  """Remember an argument so that its immutability can be checked."""
  snap = (tuple(x.tt_cores), [list(s) for s in x.get_raw_shape()], list(x.get_tt_ranks()),
          x.batch_size if B.is_batch(x) else None,
          [B.val(c) for c in x.tt_cores])
  B.frames.append((x, snap))


def finish(B):
  """Frame obligations: arguments are what they were."""
  for i, (x, (cores, raw, rk, bs, vals)) in enumerate(B.frames):
    now = tuple(x.tt_cores)
    same = len(now) == len(cores) and all(a is b for a, b in zip(now, cores))
    if not same:
      same = len(now) == len(cores) and all(list(a.shape) == list(v.shape) for a, v in zip(now, vals))
      if same:
        for k, (a, v) in enumerate(zip(now, vals)):
          B.eq('frame/argument-%d-core-%d' % (i, k), B.val(a), v)
    else:
      for k, (a, v) in enumerate(zip(now, vals)):
        if getattr(a, 'assign', None) is not None:
          B.eq('frame/argument-%d-core-%d' % (i, k), B.val(a), v)
    B.true('frame/argument-%d-cores' % i, same)
    B.same('frame/argument-%d-shape' % i, [list(s) for s in x.get_raw_shape()], raw)
    B.same('frame/argument-%d-ranks' % i, list(x.get_tt_ranks()), rk)
    if B.is_batch(x):
      B.same('frame/argument-%d-batch' % i, x.batch_size, bs)
