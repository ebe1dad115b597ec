"""Concrete backend: evaluates the same contracts on the real t3f and TensorFlow.

Used to replay counterexamples and as the bounded stand-in for obligations the
verifier could not decide.  Runs under /opt/venv.
"""
import contextlib
import json
import os
import re
import signal
import sys
import traceback
import zlib

import numpy as np


class Skip(Exception):
  """A precondition does not hold for the sampled dimensions."""


class ContractStop(Exception):
  pass


class Unsupported(Exception):
  pass


class Con(object):
  symbolic = False
  held = False   # cores held by variables

  def __init__(self, t3f, tf, env=None, seed=0, dtype='float64', mode='normal', hi=4, thin=0, even=False):
    self.t3f, self.tf, self.np = t3f, tf, np
    self.env = dict(env or {})
    self.seed, self.mode, self.hi, self.thin, self.even = seed, mode, hi, thin, even
    self.dtype = tf.as_dtype(dtype)
    self.frames = []
    self.obligations = []
    self.inputs = {}
    self.mag = 0.
    self.low = False
    self.floor = 1e-6 if mode != 'tiny' else 1e-60 if dtype == 'float64' else 1e-30
    self.InvalidArgumentError = tf.errors.InvalidArgumentError

  def rng(self, name):
    return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

  def dim(self, name):
    if name not in self.env and self.even and re.search(r'\d$', name):
      self.env[name] = self.common_size(name)
    elif name not in self.env:
      rng = self.rng('dim:' + name)
      # with many cores most modes have one element
      one = self.thin and re.match(r'[a-z]+\[?\d+', name) and rng.uniform() > self.thin
      self.env[name] = 1 if one else int(rng.integers(2 if self.thin else 1, self.hi + 1))
    return int(self.env[name])

  def common_size(self, name):
    """One size for all modes, and one for all ranks; often one element only."""
    rng = self.rng('even')
    kind = {'m': 'n'} if rng.integers(2) else {}
    stem = re.sub(r'\d+$', '', name)
    stem = '_r' if stem.endswith('_r') and rng.integers(2) else kind.get(stem, stem)
    rng = self.rng('size:' + stem)
    return int(rng.choice([1, 1, 2, self.hi]))

  def num(self, name):
    n = '$' + name
    if n not in self.env:
      self.env[n] = float(self.rng('num:' + name).uniform(0.3, 2.5))
    return float(self.env[n])

  def require(self, op, a, b):
    if not self.sure(op, a, b):
      raise Skip('%s %s %s' % (a, op, b))

  def sure(self, op, a, b):
    return {'==': a == b, '<': a < b, '<=': a <= b, '!=': a != b}[op]

  def _array(self, name, dims, info):
    rng = self.rng('tensor:' + name)
    dims = [int(d) for d in dims]
    if info.get('spd'):
      n = dims[-2]
      a = rng.normal(size=[int(np.prod(dims[:-2], initial=1)), n, n])
      x = np.einsum('bij,bkj->bik', a, a) + n * np.eye(n)
      return x.reshape(dims)
    if info.get('dominant'):
      n = dims[-2]
      x = rng.normal(size=dims) * 0.4 + (np.eye(n) * 1.5).reshape([1] * (len(dims) - 2) + [n, n])
      if rng.integers(2):
        x[..., 0, :] *= -1
      return x
    if info.get('positive'):
      return rng.uniform(0.5, 2.0, size=dims)
    if self.mode == 'special':
      if rng.integers(12) == 0:
        return np.zeros(dims)
      return rng.integers(-2, 3, size=dims).astype(float)
    if self.mode == 'large':
      return rng.normal(size=dims) * 1e3
    if self.mode == 'small':
      return rng.normal(size=dims) * 1e-3
    if self.mode == 'tiny':
      return rng.normal(size=dims) * (1e-10 if self.dtype == self.tf.float64 else 1e-5)
    if self.mode == 'graded':
      # singular values of very different sizes
      return rng.normal(size=dims) * 10. ** (-rng.uniform(1.5, 3) * np.arange(dims[-1] if dims else 1)).reshape([-1] if dims else [])
    return rng.normal(size=dims)

  def tensor(self, name, dims, dtype=None, **info):
    shape = info.pop('matrix_shape', None)
    x = self._array(name, dims if shape is None else shape, info)
    x = x.reshape([int(d) for d in dims])
    t = self.tf.constant(x, dtype=self.tf.as_dtype(dtype) if dtype else self.dtype)
    self.inputs[name] = t
    return t

  def index_tensor(self, name, dims, bounds):
    rng = self.rng('index:' + name)
    bounds = [int(np.prod([int(x) for x in b])) if isinstance(b, (list, tuple)) else int(b) for b in bounds]
    cols = [rng.integers(0, b, size=[int(d) for d in dims]) for b in bounds]
    return self.tf.constant(np.stack(cols, axis=-1).astype(np.int64))

  def sparse(self, indices, values, shape):
    return self.tf.SparseTensor(indices, values, [int(s) for s in shape])

  def columns(self, idx):
    return [idx[..., k] for k in range(idx.shape[-1])]

  # -- oracle -------------------------------------------------------------------
  def val(self, x):
    if isinstance(x, np.ndarray):
      return x
    return np.array(x.numpy() if hasattr(x, 'numpy') else x, dtype=np.float64)

  def einsum(self, eq, *xs):
    return np.einsum(eq, *[self.val(x) for x in xs])

  def contract(self, ins, xs, out):
    names = {}
    ops = []
    for i, x in zip(ins, xs):
      ops.append(self.val(x))
      ops.append([names.setdefault(l, len(names)) for l in i])
    if len(names) > 31 and len(ops) > 2:
      raise Unsupported('too many axes')
    return np.einsum(*(ops + [[names[l] for l in out]]), optimize='greedy')

  def reshape(self, x, dims):
    return np.reshape(self.val(x), [int(d) for d in dims])

  def transpose(self, x, perm):
    return np.transpose(self.val(x), perm)

  def expand(self, x, k):
    return np.expand_dims(self.val(x), k)

  def squeeze(self, x, k):
    return np.squeeze(self.val(x), axis=k)

  def concat(self, xs, axis):
    return np.concatenate([self.val(x) for x in xs], axis=axis)

  def stack(self, xs, axis):
    return np.stack([self.val(x) for x in xs], axis=axis)

  def sum(self, x, axes=None):
    return np.sum(self.val(x), axis=None if axes is None else tuple(axes))

  def sqrt(self, x):
    return np.sqrt(self.val(x))

  def getitem(self, x, spec):
    return self.val(x)[spec]

  def gather_multi(self, x, axis, cols):
    x = self.val(x)
    cs = [np.asarray(c.numpy() if hasattr(c, 'numpy') else c).astype(int) for c in cols]
    return x[(slice(None),) * axis + tuple(cs)]

  def ones(self, dims):
    return np.ones([int(d) for d in dims])

  def full(self, dims, x):
    return np.full([int(d) for d in dims], float(x))

  def zeros(self, dims):
    return np.zeros([int(d) for d in dims])

  def eye(self, n):
    return np.eye(int(n))

  def fn(self, name, x):
    x = self.val(x)
    if name in ('abs', 'sign', 'log', 'exp'):
      return getattr(np, name)(x)
    if name == 'inv':
      return np.linalg.inv(x)
    if name == 'det':
      return np.linalg.det(x)
    if name == 'chol':
      return np.linalg.cholesky(x)
    if name.startswith('act_'):
      return np.array(self.tf.keras.activations.get(name[4:])(self.tf.constant(x)))
    raise Unsupported(name)

  def pow(self, x, e):
    return self.val(x) ** float(e)

  def in_graph(self, hide, fn, args):
    t3f, tf = self.t3f, self.tf
    tts = [hasattr(a, 'tt_cores') for a in args]
    spec, flat = [], []
    for a, tt in zip(args, tts):
      if tt:
        sizes = self.hidden_sizes(hide, a, [c.shape for c in a.tt_cores])
        spec.append([tf.TensorSpec(s, c.dtype) for s, c in zip(sizes, a.tt_cores)])
        flat.append(list(a.tt_cores))
      else:
        shape = [None if 'dense' in hide or ('rows' in hide and i == 0) else n for i, n in enumerate(a.shape)]
        spec.append(tf.TensorSpec(shape, a.dtype))
        flat.append(a)
    info = {}

    def wrapped(*xs):
      xs = [type(a)(list(x)) if tt else x for x, a, tt in zip(xs, args, tts)]
      out = fn(*xs)
      info['single'] = not isinstance(out, (list, tuple))
      out = [out] if info['single'] else list(out)
      info['kinds'] = [type(r) if hasattr(r, 'tt_cores') else None for r in out]
      info['static'] = [self.static_sizes(r) if hasattr(r, 'tt_cores') else None for r in out]
      return [list(r.tt_cores) if hasattr(r, 'tt_cores') else r for r in out]
    got = tf.function(wrapped, input_signature=spec)(*flat)
    return [k(list(r)) if k is not None else r for k, r in zip(info['kinds'], got)], info['static']

  @contextlib.contextmanager
  def v1_graph(self):
    with self.tf.Graph().as_default():
      with self.tf.compat.v1.Session() as s:
        yield _V1Graph(self.tf, s)

  def plain(self, x, form='array'):
    """The same values as a numpy array or a list."""
    if form != 'array':
      return x.numpy().tolist()
    return np.asfortranarray(x.numpy()) if self.mode == 'special' else x.numpy()

  def array(self, xs):
    return np.array(xs)

  np_array = array

  def gradient(self, fn, xs):
    ts = [self.tf.constant(self.val(x), dtype=self.dtype) for x in xs]
    with self.tf.GradientTape() as tape:
      for t in ts:
        tape.watch(t)
      y = fn(*ts)
    return [None if g is None else self.val(g) for g in tape.gradient(y, ts)]

  # -- obligations ----------------------------------------------------------------
  def _record(self, name, ok, detail=''):
    self.obligations.append((name, bool(ok), detail))
    return bool(ok)

  def tol(self):
    return 2e-3 if self.low or self.dtype == self.tf.float32 else 1e-9

  def single(self):
    """From here on values are compared in single precision."""
    self.low = True

  def inner(self, x, y, batch=False):
    a, b = self.val(x), self.val(y)
    s = float(np.sqrt(np.sum(a ** 2)) * np.sqrt(np.sum(b ** 2)))
    if np.isfinite(s):
      self.mag = max(self.mag, s)
    return common.inner(self, x, y, batch)

  def den(self, x):
    """As in the shared vocabulary; remembers the magnitude of the operands."""
    v = common.den(self, x)
    if v.size and np.all(np.isfinite(v)):
      self.mag = max(self.mag, float(np.max(np.abs(v))))
    return v

  def eq(self, name, got, want):
    a, b = self.val(got), self.val(want)
    if a.shape != b.shape:
      return self._record(name, False, 'shape %s, expected %s' % (a.shape, b.shape))
    if not np.all(np.isfinite(b)):
      return self._record(name, True)
    if not np.all(np.isfinite(a)):
      return self._record(name, False, 'non-finite result')
    scale = max(self.floor, np.max(np.abs(b), initial=0), np.max(np.abs(a), initial=0))
    err = np.max(np.abs(a - b), initial=0)
    ok = err <= self.tol() * scale + 100 * np.finfo(self.dtype.as_numpy_dtype).eps * self.mag
    return self._record(name, ok, 'differs by %.3g (scale %.3g)' % (err, scale))

  def near(self, name, got, want, eps):
    """Within eps relative to the norm of the exact value."""
    a, b = self.val(got), self.val(want)
    if a.shape != b.shape:
      return self._record(name, False, 'shape %s, expected %s' % (a.shape, b.shape))
    n = np.sqrt(np.sum(b ** 2))
    return self._record(name, np.sqrt(np.sum((a - b) ** 2)) <= (eps + self.tol()) * max(n, self.floor),
                        'not within the accuracy %g' % eps)

  def zero(self, name, got, scale=None):
    a = self.val(got)
    s = max(1.0, scale or 0)
    return self._record(name, np.all(np.abs(a) <= self.tol() * s), 'not zero: %.3g' % np.max(np.abs(a), initial=0))

  def same(self, name, got, want):
    d = self._same(got, want)
    return self._record(name, d is None, d or '')

  def _same(self, a, b):
    if hasattr(a, 'as_list'):
      a = a.as_list()
    if hasattr(b, 'as_list'):
      b = b.as_list()
    if hasattr(a, 'numpy'):
      a = a.numpy()
    if hasattr(b, 'numpy'):
      b = b.numpy()
    seq = (list, tuple, np.ndarray)
    if isinstance(a, seq) and isinstance(b, seq) and not (isinstance(a, np.ndarray) and a.ndim == 0):
      if len(a) != len(b):
        return '%s vs %s' % (list(a), list(b))
      for x, y in zip(a, b):
        d = self._same(x, y)
        if d is not None:
          return d
      return None
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
      return None if abs(a - b) <= 1e-9 * max(1, abs(b)) else '%s is not %s' % (a, b)
    return None if a == b else '%r is not %r' % (a, b)

  def true(self, name, cond):
    return self._record(name, cond, 'false')

  def le(self, name, a, b):
    return self._record(name, a <= b + 1e-9 * max(1, abs(b)), '%s > %s' % (a, b))

  def raises(self, name, exc, fn):
    try:
      r = fn()
    except exc:
      return self._record(name, True)
    except Exception as e:
      return self._record(name, False, 'raised %s: %s' % (type(e).__name__, str(e)[:200]))
    return self._record(name, False, 'no exception; returned %s' % (str(r)[:200],))

  def stop(self, why):
    raise ContractStop(why)

  # -- random objects ---------------------------------------------------------------
  def ratio(self, a, b):
    return float(a) / float(b)

  def _samples(self, make, enough=6000, calls=300):
    got = None
    for _ in range(calls):
      cs = [self.val(c) for c in make().tt_cores]
      if got is None:
        got = [[] for _ in cs]
      for g, c in zip(got, cs):
        g.append(c.ravel())
      if min(sum(x.size for x in g) for g in got) >= enough:
        break
    return [np.concatenate(g) for g in got]

  def _independent(self, name, xs):
    for i in range(len(xs)):
      x = (xs[i] - xs[i].mean()) / max(xs[i].std(), 1e-30)
      self._record('%s/independent-entries-%d' % (name, i), len(np.unique(x)) > 0.9 * x.size or x.size < 10,
                   'repeated draws')
      for j in range(i):
        n = min(xs[i].size, xs[j].size)
        y = (xs[j] - xs[j].mean()) / max(xs[j].std(), 1e-30)
        self._record('%s/independent-cores-%d-%d' % (name, i, j),
                     n < 100 or abs(np.mean(x[:n] * y[:n])) < 8 / np.sqrt(n), 'correlated cores')

  def random_cores(self, name, make, mean, std):
    xs = self._samples(make)
    for k, x in enumerate(xs):
      n = x.size
      self._record('%s/mean-%d' % (name, k), abs(x.mean() - mean) < 7 * std / np.sqrt(n),
                   'mean %.4g, expected %.4g' % (x.mean(), mean))
      self._record('%s/variance-%d' % (name, k), abs(x.var() / std ** 2 - 1) < 10 * np.sqrt(2. / n),
                   'variance %.4g, expected %.4g' % (x.var(), std ** 2))
    self._independent(name, xs)

  def random_variance(self, name, make, var, enough=6000):
    xs = self._samples(make, enough)
    v = float(np.prod([float(r) for r in make().get_tt_ranks()]))
    rel = 0
    for k, x in enumerate(xs):
      n = x.size
      self._record('%s/mean-%d' % (name, k), abs(x.mean()) < 7 * x.std() / np.sqrt(n) + 1e-30,
                   'mean %.4g' % x.mean())
      v *= np.mean(x ** 2)
      rel += 2. / n
    self._record('%s/entry-variance' % name, abs(v / var - 1) < 8 * np.sqrt(rel),
                 'variance %.4g, expected %.4g' % (v, var))
    self._independent(name, xs)

  def trains(self, layer, variables):
    have = set(id(v) for v in layer.trainable_variables)
    return all(id(v) in have for v in variables)

  @contextlib.contextmanager
  def exact_rounding(self):
    yield None

  def combination(self, name, log, r, want):
    self.eq(name, self.den(r), want)


class _V1Graph(object):

  def __init__(self, tf, session):
    self.v1, self.session = tf.compat.v1, session

  def tt(self, x):
    return type(x)([self.v1.constant(c.numpy()) for c in x.tt_cores])

  def start(self):
    self.session.run(self.v1.global_variables_initializer())

  def value(self, x):
    return self.session.run(x)

  def value_tt(self, x):
    cores = self.session.run([c + 0 for c in x.tt_cores])
    return lambda: type(x)([self.v1.constant(c) for c in cores])

  def run(self, x):
    self.session.run(x.op)


from t3v import anyb, common  # noqa: E402
_den, _inner = Con.den, Con.inner
common.install(Con)
Con.den, Con.inner = _den, _inner
anyb.install(Con, anyb.ConAny)


def _largest(cfg):
  """Largest sampled dimension."""
  if cfg.get('d') == 'any':
    return 3
  d = cfg.get('d') if isinstance(cfg.get('d'), int) else 0
  return 4 if d < 4 else 3 if d == 4 else 2


def run_one(t3f, tf, fn, task):
  if task.get('grow'):
    # The dimensions the contract uses, then one of them made large.
    small = run_one(t3f, tf, fn, dict(task, grow=None))
    names = sorted(k for k in small['env'] if k[0] not in '#$' and k not in (task.get('env') or {}))
    if task.get('batches'):
      names = [k for k in names if k[0].isupper()]
    if small['status'] != 'ok' or not names:
      return small
    rng = np.random.default_rng([task.get('seed', 0), 3])
    env = dict(small['env'], **{names[rng.integers(len(names))]: task['grow']})
    return run_one(t3f, tf, fn, dict(task, env=env, grow=None))
  return _run_one(t3f, tf, fn, task)


def _run_one(t3f, tf, fn, task):
  """Returns (status, failures, env)."""
  cfg = dict(task['cfg'])
  dtype = cfg.pop('dtype', task.get('dtype', 'float64'))
  d = cfg.get('d') if isinstance(cfg.get('d'), int) else (task.get('env') or {}).get('#d', 1)
  b = Con(t3f, tf, task.get('env'), task.get('seed', 0), dtype, task.get('mode', 'normal'),
          task.get('hi', _largest(cfg)), min(1., task.get('thin', 0) / float(d)), task.get('even', False))
  b.held = task.get('held', False)
  tf.random.set_seed(task.get('seed', 0))
  try:
    fn(b, **cfg)
    b.finish()
  except Skip as e:
    return {'status': 'skip', 'detail': str(e), 'env': b.env}
  except Unsupported as e:
    return {'status': 'skip', 'detail': str(e), 'env': b.env}
  except ContractStop:
    pass
  except Exception as e:
    if task.get('select') == 'frame':
      return {'status': 'skip', 'detail': 'not finished: %s' % e, 'env': b.env}
    tb = traceback.extract_tb(e.__traceback__)
    at = [f for f in tb if '/t3f/' in f.filename]
    b.obligations.append(('runs-without-error', False, '%s: %s @ %s' % (
        type(e).__name__, str(e)[:300], '%s:%d' % (at[-1].filename, at[-1].lineno) if at else
        '%s:%d' % (tb[-1].filename, tb[-1].lineno))))
  if 'select' in task:
    b.obligations = [o for o in b.obligations
                     if o[0].startswith('frame/') == (task['select'] == 'frame')]
  bad = [(n, d) for n, ok, d in b.obligations if not ok]
  r = {'status': 'fail' if bad else 'ok', 'failures': bad, 'env': b.env, 'n': len(b.obligations)}
  if bad:
    r['inputs'] = {k: _show(v) for k, v in b.inputs.items()}
  return r


def _show(v):
  v = np.asarray(v)
  return {'shape': list(v.shape), 'values': v.tolist() if v.size <= 200 else 'generated from the seed'}


class _Late(BaseException):
  pass


def _alarm(*_):
  raise _Late()


def main():
  import logging
  signal.signal(signal.SIGALRM, _alarm)
  logging.disable(logging.WARNING)
  import tensorflow as tf
  tf.config.threading.set_intra_op_parallelism_threads(1)
  tf.config.threading.set_inter_op_parallelism_threads(1)
  import t3f
  from t3v import contracts
  tasks = json.load(open(sys.argv[1]))
  budget = float(sys.argv[3]) if len(sys.argv) > 3 else 1e9
  import time
  t0 = time.time()
  with open(sys.argv[2], 'w') as out:
    for i, task in enumerate(tasks):
      if time.time() - t0 > budget:
        out.write(json.dumps({'i': i, 'status': 'budget'}) + '\n')
        continue
      signal.alarm(30)
      try:
        for k in range(task.get('retries', 0) + 1):
          r = run_one(t3f, tf, contracts.get(task['contract']), dict(task, seed=task.get('seed', 0) + 7919 * k))
          if r['status'] != 'skip':
            break
        r['seed'] = task.get('seed', 0) + 7919 * k
      except _Late:
        r = {'status': 'budget'}
      except Exception as e:
        r = {'status': 'error', 'detail': '%s: %s' % (type(e).__name__, e)}
      finally:
        signal.alarm(0)
      r['i'] = i
      out.write(json.dumps(r, default=str) + '\n')
      out.flush()


if __name__ == '__main__':
  main()
