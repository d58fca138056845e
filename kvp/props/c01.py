"""C01: Scattering1D values equal the definition (local averaging)."""
import numpy as np
from hypothesis import strategies as st
from .. import cmp, fe, gen
from ..harness import Sub, need
from ..ref1d import Ref1D

RULE = ('Generated Scattering1D configurations (J, Q int/1-tuple/pair, N in 2..257 including odd, '
        'T None/integer/fractional, stride, max_order, batch shape, dtype) x signal recipes; each '
        'output is compared with an independent float64 cascade built from closed-form Morlet '
        'filters. Non-trivial: the signal is not constant and the reference has a non-zero '
        'first-order coefficient.')
ASSUMPTIONS = ['the reference model kvp/ref1d.py states the intended definition (it was written '
               'from the documentation and reviewed against the code)',
               'float32 frontends are held to 3e-5 of the largest coefficient of the order']


def strategy(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg1d(modes=('default', 'local'), **kw),
        batch=gen.batches(), x=gen.signals(), double=st.booleans()))


def body(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    x = gen.signal(c['x'], tuple(c['batch']) + (cfg['shape'],))
    x32 = x.astype(np.float32).astype(np.float64)
    double = c['double'] and f in ('numpy', 'sklearn', 'torch')
    S = fe.make(f, '1d', **cfg)
    if f == 'torch' and double:
        S = S.double()
    xin = x if (double and f == 'numpy') else x32
    if f == 'numpy' and not double:
        y = fe.to_np(fe.call(S, x32.astype(np.float32)))
    else:
        y = fe.run(f, S, xin, double)
    ref = Ref1D(cfg['J'], cfg['shape'], cfg['Q'], cfg.get('T'), cfg.get('stride'), cfg['max_order'])
    r = ref(xin)
    keys = ref.paths()
    need(y.shape == tuple(c['batch']) + (len(keys), r[()].shape[-1]),
         'output shape %s, expected %s', y.shape, tuple(c['batch']) + (len(keys), r[()].shape[-1]))
    tag = 'torch64' if (f == 'torch' and double) else f
    tol = 1e-5 if (f == 'numpy' and not double) else None
    cmp.by_order(keys, [y[..., i, :] for i in range(len(keys))], [r[k] for k in keys], xin, tag, f, tol=tol)
    m1 = max([float(np.abs(r[k]).max()) for k in keys if len(k) == 1] or [0])
    return c['x']['kind'] not in ('const',) and m1 > 1e-6 * max(float(np.abs(xin).max()), 1e-30)


def large():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'numpy', 'torch']), cfg=gen.cfg1d_large(modes=('default', 'local')), batch=st.sampled_from([[], [2]]), x=gen.signals(),
        double=st.booleans()))


SUBS = [
    Sub('large', large, body, 150, 4000, shards=2, rank=3),
    Sub('numpy', strategy(['numpy']), body, 3000, 60000, shards=4),
    Sub('torch', strategy(['torch'], nmax=130), body, 600, 15000, shards=2, rank=2),
    Sub('tensorflow', strategy(['tensorflow'], nmax=130), body, 150, 4000, shards=1, rank=3),
    Sub('jax', strategy(['jax'], nmax=70, max_q=4), body, 60, 1500, shards=1, rank=3),
]
