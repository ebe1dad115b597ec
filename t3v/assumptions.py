"""What the proofs rest on; copied into every evidence file."""

TRUSTED = [
    't3v/symtf.py, symnp.py, symv1.py, symgrad.py: assumed contracts of the TensorFlow and numpy operations that t3f '
    'calls (validated by running every contract on the real TensorFlow as well, bounded)',
    't3v/expr.py, tensor.py: the tensor-index normaliser that discharges the equalities',
    't3v/load.py: the extraction (imports of numpy/tensorflow redirected, isinstance/min/max/int/float and string '
    'formatting accept symbolic integers, loops and the builtins on sequences accept sequences of symbolic length; every '
    'other statement is executed by CPython as written)',
    't3v/seq.py, cut.py, sweep.py, anyb.py: sequences of symbolic length, the cutting of loops at invariants and the '
    'induction over the cores, with the lemmas that products of orthonormal cores are orthonormal and that the variations '
    'of a gauged tangent vector are orthogonal to the left basis',
    'z3 4.x for the integer obligations and the path conditions',
    'CPython 3.12',
]

ASSUMPTIONS = [
    'floating point arithmetic is treated as exact real arithmetic; float constants are compared up to 1e-10',
    'denominators are nonzero and arguments of square roots nonnegative',
    'QR: Q has orthonormal columns and QR = X; SVD: U, V have orthonormal columns, U S V^T = X; '
    'singular vectors and values are the same expression for the same argument (determinism of the factorisations)',
    'all sizes are below 2^31 - 1',
    'random draws of one call are independent and have the requested mean and variance',
    'eager execution with static shapes known, except for C24: there the sizes named in the contract are unknown while '
    'the code runs, and static shape inference is assumed to lose a size exactly when it depends on an unknown size',
]

LEVEL = {}

EXPLANATION = ('obligations with all ranks, mode sizes, batch sizes and values symbolic: the contracts "unbounded.*" for any '
               'number of TT-cores >= 3 by induction over the cores, the others for each fixed number of TT-cores listed')

_FIXED = ('Proved for all TT-ranks, mode sizes, batch sizes and values (symbolic): for any number of TT-cores by induction '
          'where the evidence lists d=any, otherwise for each number of TT-cores listed there (fixed_number_of_cores); ')
_REST = ('assumes exact real arithmetic and the contracts of TensorFlow/numpy operations in t3v/sym*.py, which are '
         'validated by running every contract on the real library (bounded samples).')

NOTE = {'default': _FIXED + _REST}
