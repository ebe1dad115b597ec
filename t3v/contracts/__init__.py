"""Contracts on the functions of /repo/t3f, one module per part of the library.

A contract is a python function of a backend B: it declares the inputs
(preconditions included), calls the real function and states the
postconditions as obligations on B.  The same text is used by the verifier
(symbolic inputs, t3v.sym) and by the replayer (real TensorFlow, t3v.con), so a
failed proof is replayed with exactly the clause that failed.

This package imports neither z3 nor TensorFlow.
"""
import importlib
import json

MODULES = ('arith', 'meta', 'products', 'batch', 'index', 'decomp', 'tangent', 'kron', 'init',
           'approx', 'repr', 'layers', 'reject', 'dynamic', 'unbounded', 'extreme', 'frame')

REGISTRY = {}
_LOADED = [False]


class Contract(object):

  def __init__(self, name, prop, fn, quick, thorough, functions, replay, replay_only, domain, deep, large):
    self.name, self.fn = name, fn
    self.props = (prop,) if isinstance(prop, str) else tuple(prop)
    self.prop = self.props[0]
    self.quick, self.thorough = list(quick), list(thorough)
    self.functions = tuple(functions)
    self.replay = replay
    self.replay_only = replay_only
    self.domain = domain
    self.large = large
    self.deep = [] if replay_only else _deeper(self.quick + self.thorough, deep)


def _deeper(cfgs, deep):
  """The configurations of a contract with more cores."""
  key = lambda c: json.dumps(c, sort_keys=True, default=str)
  seen = {key(c) for c in cfgs}
  out = []
  for c in cfgs:
    if isinstance(c.get('d'), int) and 'dtype' not in c and 'at' not in c:
      for d in deep:
        e = dict(c, d=d)
        if key(e) not in seen:
          seen.add(key(e))
          out.append(e)
  return out


def contract(prop, quick, thorough=(), functions=(), replay=True, replay_only=False, domain='',
             deep=(4, 5, 6), large=True):
  """Register a contract for a property.

  quick, thorough: configurations (keyword arguments); those of the first list
  are sampled more often on the real library.  deep: further numbers of cores
  for every configuration.  large: whether samples may have one large dimension.
  functions: the t3f functions whose specification
  this is.
  replay_only: the clause is outside the reach of the verifier and is only
  evaluated on samples (bounded, reported as such).
  """
  def deco(fn):
    name = '%s.%s' % (fn.__module__.rsplit('.', 1)[1], fn.__name__)
    if name in REGISTRY:
      raise ValueError(name)
    REGISTRY[name] = Contract(name, prop, fn, quick, thorough, functions, replay, replay_only, domain,
                              deep, large)
    return fn
  return deco


def load():
  if not _LOADED[0]:
    for m in MODULES:
      importlib.import_module('t3v.contracts.' + m)
    _LOADED[0] = True
  return REGISTRY


def get(name):
  return load()[name].fn


def of_property(prop):
  return [c for c in load().values() if prop in c.props]


def configs(c, deep=True):
  return c.quick + c.thorough + (c.deep if deep else [])


def grid(**axes):
  """Cartesian product of keyword lists."""
  out = [{}]
  for k, vs in axes.items():
    out = [dict(o, **{k: v}) for o in out for v in vs]
  return out
