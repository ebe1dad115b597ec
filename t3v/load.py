"""Loads the real t3f sources for symbolic execution.

Every run parses /repo/t3f/*.py again.  The extraction changes only this:
  * `import numpy` resolves to t3v.symnp and `import tensorflow` to t3v.symtf;
  * the builtins isinstance, min, max, int(...), float(...) accept symbolic
    numbers;
  * `a % b` on strings tolerates symbolic numbers (message formatting);
  * `for` loops, comprehensions and the builtins list, tuple, len, range, zip,
    enumerate, reversed, any, all and functools.reduce accept sequences of
    symbolic length, over which loops are cut at an invariant (cut.py); over
    anything else they are the loops as written.
Statements, control flow and expressions are executed by CPython as written.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import numbers
import os
import sys
import types

from t3v import cut, num, seq, symnp, symtf
from t3v.num import Num, nmin, nmax

REPO = os.environ.get('T3V_REPO', '/repo')


def _isinstance(x, cls):
  if builtins.isinstance(x, seq.Seq) and x.kind in _KINDS:
    x = _KINDS[x.kind]
  if builtins.isinstance(x, Num):
    cs = []
    def flat(c):
      if builtins.isinstance(c, tuple):
        for i in c:
          flat(i)
      else:
        cs.append(c)
    flat(cls)
    is_int = symtf._num_is_int(x)
    for c in cs:
      if c in (builtins.int, numbers.Integral) and is_int:
        return True
      if c in (numbers.Number, numbers.Real, numbers.Rational):
        return True
      if c is builtins.float and not is_int:
        return True
  return builtins.isinstance(x, cls)


_KINDS = {'list': [], 'tuple': (), 'array': symnp.array([1])}


def _any_num(xs):
  return any(builtins.isinstance(x, Num) for x in xs)


def _no_tensors(xs):
  if len(xs) > 1 and any(symtf.unknown(x) for x in xs):
    raise TypeError('a comparison of tensors while the graph is built')


def _min(*a, **k):
  if len(a) == 1 and not k and seq.is_seq(a[0]):
    return seq.Extreme(a[0], -1)
  xs = list(a[0]) if len(a) == 1 else list(a)
  _no_tensors(xs)
  if not k and _any_num(xs):
    return nmin(*xs)
  return builtins.min(*((xs,) if len(a) == 1 else a), **k)


def _max(*a, **k):
  if len(a) == 1 and not k and seq.is_seq(a[0]):
    return seq.Extreme(a[0], 1)
  xs = list(a[0]) if len(a) == 1 else list(a)
  _no_tensors(xs)
  if not k and _any_num(xs):
    return nmax(*xs)
  return builtins.max(*((xs,) if len(a) == 1 else a), **k)


def _to_int(*a):
  if len(a) == 1:
    x = a[0]
    if builtins.isinstance(x, symtf.Tensor) and not symtf.unknown(x):
      k = symtf.known_values(x)
      if k is not None and k.size == 1:
        x = k.flat[0]
    if builtins.isinstance(x, Num):
      return symtf._nn(symnp.to_int(x))
  return builtins.int(*a)


def _to_float(*a):
  if len(a) == 1 and builtins.isinstance(a[0], Num):
    return a[0]
  return builtins.float(*a)


def _mod(a, b):
  if builtins.isinstance(a, str):
    try:
      return a % b
    except Exception:
      return a
  return a % b


OVERRIDES = {'isinstance': _isinstance, 'min': _min, 'max': _max,
             't3v_int_': _to_int, 't3v_float_': _to_float, 't3v_mod_': _mod}
OVERRIDES.update(cut.OVERRIDES)


class Rewrite(ast.NodeTransformer):

  def visit_Import(self, node):
    out = []
    for a in node.names:
      if a.name == 'numpy' or a.name.startswith('numpy.'):
        out.append(ast.ImportFrom(module='t3v', names=[ast.alias(name='symnp', asname=a.asname or 'numpy')],
                                  level=0))
      elif a.name in ('itertools', 'functools'):
        out.append(ast.ImportFrom(module='t3v', names=[ast.alias(name='symit', asname=a.asname or a.name)], level=0))
      else:
        out.append(ast.Import(names=[a]))
    return [ast.copy_location(o, node) for o in out]

  def visit_ImportFrom(self, node):
    if node.module == 'numpy' and node.level == 0:
      node.module = 't3v.symnp'
    elif node.module in ('itertools', 'functools') and node.level == 0:
      node.module = 't3v.symit'
    return node

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, ast.Mod):
      return ast.copy_location(ast.Call(func=ast.Name(id='t3v_mod_', ctx=ast.Load()),
                                        args=[node.left, node.right], keywords=[]), node)
    return node

  def visit_Call(self, node):
    self.generic_visit(node)
    if isinstance(node.func, ast.Name) and node.func.id in ('int', 'float'):
      node.func = ast.copy_location(ast.Name(id='t3v_%s_' % node.func.id, ctx=ast.Load()), node.func)
    return node

  def visit_ClassDef(self, node):
    self.generic_visit(node)
    return node


class Loader(importlib.abc.Loader):

  def __init__(self, name, path):
    self.name, self.path = name, path

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    with open(self.path) as f:
      src = f.read()
    tree = ast.parse(src, self.path)
    tree = ast.fix_missing_locations(Rewrite().visit(tree))
    tree = cut.instrument(tree)
    module.__dict__.update(OVERRIDES)
    exec(compile(tree, self.path, 'exec'), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path, target=None):
    if fullname != 't3f' and not fullname.startswith('t3f.'):
      return None
    rel = fullname.split('.')
    base = os.path.join(REPO, *rel)
    for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
      if os.path.exists(p):
        spec = importlib.util.spec_from_loader(fullname, Loader(fullname, p), origin=p, is_package=pkg)
        if pkg:
          spec.submodule_search_locations = [base]
        return spec
    return None


def install():
  seq.install()
  # names with a double underscore prefix inside classes are mangled
  sys.modules['tensorflow'] = symtf
  mods = {
      'tensorflow.compat': symtf.compat, 'tensorflow.compat.v1': symtf.compat.v1,
      'tensorflow.compat.v2': symtf,
      'tensorflow.keras': symtf.keras, 'tensorflow.keras.layers': symtf.keras.layers,
      'tensorflow.python': types.ModuleType('tensorflow.python'),
      'tensorflow.python.eager': types.ModuleType('tensorflow.python.eager'),
  }
  ctx = types.SimpleNamespace(in_eager_mode=symtf.executing_eagerly, executing_eagerly=symtf.executing_eagerly)
  mods['tensorflow.python.eager'].context = ctx
  mods['tensorflow.python'].eager = mods['tensorflow.python.eager']
  symtf.python = mods['tensorflow.python']
  sys.modules.update(mods)
  sys.meta_path.insert(0, Finder())


def load():
  """Import t3f (fresh) for symbolic execution."""
  for m in [m for m in sys.modules if m == 't3f' or m.startswith('t3f.')]:
    del sys.modules[m]
  if not any(isinstance(f, Finder) for f in sys.meta_path):
    install()
  import t3f
  return t3f
