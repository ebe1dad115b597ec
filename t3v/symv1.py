"""tf.compat.v1 variables and the small part of Keras that t3f uses."""
import contextlib
import types

from t3v import tensor as X
from t3v.num import Unsupported

COLLECTIONS = {}


class _Scope(object):

  def __init__(self, name='', reuse='AUTO_REUSE'):
    self.name, self.reuse = name, reuse
    self.original_name_scope = name

  def full(self, name):
    return self.name + '/' + name if self.name else name


# Without a graph there is one scope without reuse rules; inside graph() scopes
# are nested and variables are kept by name.
STATE = {'eager': True, 'scopes': [_Scope()], 'variables': {}}


def reset():
  COLLECTIONS.clear()
  STATE.update(eager=True, scopes=[_Scope()], variables={})


@contextlib.contextmanager
def graph():
  reset()
  STATE.update(eager=False, scopes=[_Scope('', False)])
  try:
    yield
  finally:
    reset()


def install(v1, tf):
  @contextlib.contextmanager
  def variable_scope(name_or_scope=None, default_name=None, values=None, reuse=None, **k):
    cur = STATE['scopes'][-1]
    if STATE['eager']:
      yield cur
      return
    if k or not isinstance(name_or_scope, str):
      raise Unsupported('variable_scope')
    STATE['scopes'].append(_Scope(cur.full(name_or_scope) if name_or_scope else cur.name,
                                  bool(reuse or cur.reuse)))
    try:
      yield STATE['scopes'][-1]
    finally:
      STATE['scopes'].pop()

  def get_variable(name, shape=None, dtype=None, initializer=None, regularizer=None,
                   trainable=True, **k):
    cur = STATE['scopes'][-1]
    full = cur.full(name)
    if not STATE['eager']:
      have = STATE['variables'].get(full)
      if cur.reuse and have is None or not cur.reuse and have is not None:
        raise ValueError('Variable %s %s' % (full, 'already exists' if have is not None else 'does not exist'))
      if cur.reuse:
        return have
    if initializer is None or isinstance(initializer, str):
      raise Unsupported('get_variable without a value')
    v = STATE['variables'][full] = tf.Variable(initializer, trainable=trainable, name=full)
    return v

  def assign(ref, value, validate_shape=None, use_locking=None, name=None):
    return ref.assign(value)

  @contextlib.contextmanager
  def name_scope(name=None, default_name=None, values=None):
    yield name or default_name

  v1.__dict__.update(dict(
      variable_scope=variable_scope, get_variable=get_variable, assign=assign,
      name_scope=name_scope, get_variable_scope=lambda: STATE['scopes'][-1],
      get_collection=lambda key, *a: list(COLLECTIONS.get(key, [])),
      add_to_collection=lambda key, v: COLLECTIONS.setdefault(key, []).append(v),
      GraphKeys=types.SimpleNamespace(REGULARIZATION_LOSSES='regularization_losses',
                                      TRAINABLE_VARIABLES='trainable_variables',
                                      GLOBAL_VARIABLES='variables')))


class Layer(object):

  def __init__(self, name=None, **kwargs):
    self.name = name

  def build(self, input_shape):
    pass

  def __call__(self, *a, **k):
    return self.call(*a, **k)


class Activation(Layer):

  def __init__(self, activation, **kwargs):
    Layer.__init__(self, **kwargs)
    self.activation = activation

  def call(self, x):
    return activation(self.activation, x)


def activation(name, x):
  from t3v import symtf
  if name in (None, 'linear'):
    return x
  if callable(name):
    return name(x)
  if name in ('relu', 'tanh', 'sigmoid', 'softplus', 'elu', 'selu', 'gelu'):
    return symtf.Tensor(X.unary(x.T_, 'act_' + name, 0 if name in ('relu', 'tanh', 'elu', 'selu', 'gelu') else None),
                        x.dtype)
  raise Unsupported('activation %r' % (name,))


def keras(tf):
  layers = types.ModuleType('tensorflow.keras.layers')
  layers.Layer, layers.Activation = Layer, Activation
  k = types.ModuleType('tensorflow.keras')
  k.layers = layers
  acts = types.SimpleNamespace(get=lambda n: (lambda x: activation(n, x)))
  for n in ('relu', 'tanh', 'sigmoid', 'linear', 'softplus', 'elu', 'selu', 'gelu'):
    setattr(acts, n, lambda x, n=n: activation(n, x))
  k.activations = acts
  return k
