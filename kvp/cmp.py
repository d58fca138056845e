"""Comparison helpers shared by the property modules."""
import numpy as np
from .harness import need
from . import fe

TOL = {'numpy': 1e-9, 'sklearn': 1e-9, 'torch': 3e-5, 'torch64': 3e-6,
       'tensorflow': 3e-5, 'jax': 3e-5, 'keras': 3e-5}
FLOOR = {'numpy': 1e-6, 'sklearn': 1e-6, 'torch': 1e-2, 'torch64': 1e-2,
         'tensorflow': 1e-2, 'jax': 1e-2, 'keras': 1e-2}


def by_order(keys, vals, ref, x, frontend, what='', gain=1.0, order_of=len, tol=None):
    """Compare two lists of coefficients against the reference, with a tolerance
    relative to the largest reference coefficient of the same order."""
    amp = float(np.max(np.abs(x))) * gain if x.size else 1.0
    scales = {}
    for k, r in zip(keys, ref):
        o = order_of(k)
        scales[o] = max(scales.get(o, FLOOR[frontend] * amp),
                        float(np.max(np.abs(r))) if r.size else 0.0)
    t = TOL[frontend] if tol is None else tol
    for k, v, r in zip(keys, vals, ref):
        fe.close(v, r, t, '%s path %s' % (what, k), scales[order_of(k)])


def split_array(y, axis, n):
    need(y.shape[axis] == n, 'output has %d channels, expected %d', y.shape[axis], n)
    return [np.take(y, i, axis=axis) for i in range(n)]
