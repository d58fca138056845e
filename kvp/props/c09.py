"""C09: HarmonicScattering3D values."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from ..ref3d import Ref3D

RULE = ('Generated HarmonicScattering3D configurations (J 0..2, L 0..3, odd/even/non-cubic shapes, sigma_0, powers, '
        'max_order, rotation_covariant, batch shape, dtype) x volumes; every coefficient is compared with an independent '
        'float64 computation with closed-form filters. Non-trivial: not a constant volume, and L >= 1 or J >= 1.')
ASSUMPTIONS = ['slack: the interval a coefficient can move in when the modulus moves by 5e-6 of the sup norm of its input '
               '(filters are stored in complex64), plus 1e-5 relative']


def strategy(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg3d(**kw), batch=gen.batches(),
        x=gen.images(d=3), double=st.booleans()))


def inside(y, v, slack, what):
    need(y.shape == v.shape, '%s: shape %s, expected %s', what, y.shape, v.shape)
    need(bool(np.all(np.isfinite(y))), '%s: non-finite values', what)
    d = np.abs(y.astype(np.float64) - v) - slack
    if d.max() > 0:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        need(False, '%s: coefficient %s is %.6g, expected %.6g +- %.1e', what, tuple(int(k) for k in i),
             y[i], v[i], slack[i])


def body(c):
    cfg, f = gen.kw3d(c['cfg']), c['fe']
    x = gen.image(c['x'], tuple(c['batch']) + cfg['shape'])
    x32 = x.astype(np.float32).astype(np.float64)
    double = c['double'] and f == 'numpy'
    S = fe.make(f, '3d', **cfg)
    xin = x if double else x32
    if f == 'numpy' and not double:
        y = fe.to_np(call(S, x32.astype(np.float32)))
    else:
        y = fe.run(f, S, xin, double)
    v, slack = Ref3D(**cfg).interval(xin)
    inside(y, v, slack, 'HarmonicScattering3D')
    return c['x']['kind'] != 'const' and (cfg['L'] > 0 or cfg['J'] > 0)


def large():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'torch']), cfg=gen.cfg3d_large(), batch=st.sampled_from([[], [2]]),
        x=gen.images(d=3), double=st.booleans()))


SUBS = [
    Sub('large', large, body, 60, 1500, shards=2, rank=4),
    Sub('numpy', strategy(['numpy']), body, 700, 15000, shards=3, rank=1),
    Sub('torch', strategy(['torch']), body, 400, 8000, shards=2, rank=2),
    Sub('tensorflow', strategy(['tensorflow'], dims=(4, 5, 6, 7), lmax=2), body, 120, 3000, shards=1, rank=3),
    Sub('jax', strategy(['jax'], dims=(4, 5), jmax=1, lmax=2), body, 40, 1200, shards=1, rank=3),
]
