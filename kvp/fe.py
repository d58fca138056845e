"""Uniform access to kymatio's public frontends."""
import contextlib
import importlib
import sys
import zlib
import numpy as np
from .harness import Violation, call, need

CLASS = {'1d': 'Scattering1D', '2d': 'Scattering2D', '3d': 'HarmonicScattering3D',
         'jtfs': 'TimeFrequencyScattering'}


def cls(frontend, transform):
    return getattr(importlib.import_module('kymatio.' + frontend), CLASS[transform])


def raw(frontend, transform, **kw):
    return cls(frontend, transform)(**kw)


def make(frontend, transform, **kw):
    """Construct on a valid configuration (an exception is a violation)."""
    return call(raw, frontend, transform, **kw)


def layout(x):
    """The same values in a memory layout that depends on the values (a function of
    the case, so that replays agree): contiguous, Fortran order, reversed or strided
    views, transposed storage."""
    if not isinstance(x, np.ndarray) or x.ndim == 0 or x.size == 0:
        return x
    k = zlib.crc32(np.ascontiguousarray(x).tobytes()) % 9
    if k == 1:
        return np.asfortranarray(x)
    if k == 2:
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    if k == 3:
        return np.repeat(x, 2, axis=-1)[..., ::2]
    if k == 4:
        return np.ascontiguousarray(np.swapaxes(x, 0, -1)).swapaxes(0, -1)
    return x


def to_fw(frontend, x, double=False):
    """numpy float64 -> framework array"""
    if frontend in ('numpy', 'sklearn'):
        return layout(x)
    if frontend == 'torch':
        import torch
        return torch.from_numpy(np.ascontiguousarray(x)).to(
            torch.float64 if double else torch.float32)
    if frontend == 'tensorflow':
        import tensorflow as tf
        return tf.convert_to_tensor(x.astype(np.float32))
    if frontend == 'jax':
        import jax.numpy as jnp
        return jnp.asarray(x.astype(np.float32))
    raise KeyError(frontend)


def to_np(y):
    if isinstance(y, dict):
        return {k: to_np(v) for k, v in y.items()}
    if isinstance(y, (list, tuple)):
        return [dict(v, coef=to_np(v['coef'])) if isinstance(v, dict) else to_np(v) for v in y]
    if hasattr(y, 'detach'):
        return y.detach().cpu().numpy()
    return np.asarray(y)


def run(frontend, obj, x, double=False):
    """Apply on a valid input given as numpy float64; numpy output."""
    return to_np(call(obj, to_fw(frontend, x, double)))


def close(a, b, tol, what, scale=None):
    """|a - b| <= tol * scale elementwise (same shape, finite)."""
    a = np.asarray(a)
    b = np.asarray(b)
    need(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    if a.size == 0:
        return 0.0
    need(bool(np.all(np.isfinite(a))), '%s: non-finite values', what)
    if scale is None:
        scale = float(np.max(np.abs(b)))
    scale = max(scale, 1e-30)
    err = float(np.max(np.abs(a.astype(np.float64) - b)))
    need(err <= tol * scale, '%s: max deviation %.3e (tolerance %.1e x scale %.3e)',
         what, err, tol, scale)
    return err / scale


@contextlib.contextmanager
def fresh_modules():
    """Runs the block with newly imported kymatio modules (no module-level state of
    this process's history), then puts the previous ones back."""
    names = [m for m in sys.modules if m == 'kymatio' or m.startswith('kymatio.')]
    old = {m: sys.modules.pop(m) for m in names}
    try:
        yield
    finally:
        for m in [m for m in sys.modules if m == 'kymatio' or m.startswith('kymatio.')]:
            del sys.modules[m]
        sys.modules.update(old)
