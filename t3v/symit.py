"""itertools and functools for sequences of symbolic length."""
from functools import *  # noqa: F401,F403
from functools import partial, wraps  # noqa: F401
from itertools import *  # noqa: F401,F403
import itertools as _it

from t3v.cut import reduce  # noqa: F401


class chain(object):

  def __new__(cls, *xs):
    from t3v import seq
    if not any(seq.is_seq(x) for x in xs):
      return _it.chain(*xs)
    out = seq.Seq([])
    for x in xs:
      out = out + (seq.seq_of(x).copy('list') if seq.is_seq(x) else list(x))
    return seq.View(out)

  @staticmethod
  def from_iterable(xs):
    return chain(*xs)
