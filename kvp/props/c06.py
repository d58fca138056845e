"""C06: Scattering2D values."""
import numpy as np
from hypothesis import strategies as st
from .. import cmp, fe, gen
from ..harness import Sub, call, need
from ..ref2d import Ref2D

RULE = ('Generated Scattering2D configurations (J 1..4, L 1..8, non-square, odd and minimal sizes, max_order, pre_pad, '
        'batch shape, dtype) x image recipes; every map is compared with an independent float64 cascade. Non-trivial: '
        'image not constant and a first-order map away from zero.')
ASSUMPTIONS = ['kvp/ref2d.py states the intended definition (levels follow the band-limited periodization of the library)',
               'tolerances relative to the largest coefficient of the order: 1e-6 numpy float64, 1e-4 float32']


def strategy(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg2d(pre_pad=True, **kw), batch=gen.batches(),
        x=gen.images(), double=st.booleans()))


def body(c):
    cfg, f = gen.kw2d(c['cfg']), c['fe']
    ref = Ref2D(**cfg)
    x = gen.image(c['x'], tuple(c['batch']) + (ref.P if cfg['pre_pad'] else cfg['shape']))
    x32 = x.astype(np.float32).astype(np.float64)
    S = fe.make(f, '2d', **cfg)
    double = c['double'] and f in ('numpy', 'torch')
    if f == 'torch' and double:
        S = S.double()
    xin = x if double else x32   # 'torch' below selects the float32 filter floor
    if f == 'numpy' and not double:
        y = fe.to_np(call(S, x32.astype(np.float32)))
    else:
        y = fe.run(f, S, xin, double)
    r = ref(xin)
    paths = ref.paths()
    M, N = cfg['shape']
    exp = tuple(c['batch']) + (len(paths), M // 2 ** cfg['J'], N // 2 ** cfg['J'])
    need(y.shape == exp, 'output shape %s, expected %s', y.shape, exp)
    keys = [p['n'] for p in paths]
    cmp.by_order(keys, [y[..., i, :, :] for i in range(len(keys))], [r[k] for k in keys], xin,
                 'torch', gain=30.0, tol=1e-6 if double else 3e-5)
    return c['x']['kind'] != 'const' and max(np.abs(r[k]).max() for k in keys if len(k) == 1) > 1e-5 * np.abs(xin).max()


def large():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'torch']), cfg=gen.cfg2d_large(pre_pad=True), batch=st.sampled_from([[], [2]]),
        x=gen.images(), double=st.booleans()))


SUBS = [
    Sub('large', large, body, 30, 1200, shards=2, rank=4),
    Sub('numpy', strategy(['numpy']), body, 600, 12000, shards=3, rank=1),
    Sub('torch', strategy(['torch'], nmax=34), body, 250, 5000, shards=2, rank=2),
    Sub('tensorflow', strategy(['tensorflow'], nmax=24, cost=20), body, 80, 2000, shards=1, rank=3),
    Sub('jax', strategy(['jax'], nmax=20, cost=8, jmax=3), body, 30, 800, shards=1, rank=3),
]
