"""C03: averaging modes and strides of Scattering1D."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import cmp, fe, gen
from ..harness import Sub, need
from ..ref1d import Geometry, Ref1D

RULE = ('Generated Scattering1D configurations and signals. (modes) T=0 / T="global" outputs against the reference '
        'cascade; (stride) object at stride s against every s-th sample of the stride-1 object; (oversampling) '
        'oversampling=k against stride 2^(floor(log2 T)-k). Non-trivial: non-constant signal with at least one '
        'first-order coefficient away from zero; for strides additionally s > 1.')
ASSUMPTIONS = ['aliasing allowance between strides: 1e-2 of the sup norm of the signal (largest value observed over '
               '3000 random reference transforms: 2e-3); order 0 must agree to rounding']


def sig(c, N):
    x = gen.signal(c['x'], tuple(c['batch']) + (N,))
    return x.astype(np.float32).astype(np.float64)


def strat_modes(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg1d(modes=('global', 'zero'), stride=False, **kw),
        out=st.sampled_from(['list', 'dict', 'array']), batch=gen.batches(), x=gen.signals()))


def body_modes(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    out = c['out'] if cfg['T'] != 0 else ('list' if c['out'] == 'array' else c['out'])
    S = fe.make(f, '1d', out_type=out, **cfg)
    x = sig(c, cfg['shape'])
    ref = Ref1D(cfg['J'], cfg['shape'], cfg['Q'], cfg['T'], None, cfg['max_order'])
    r, keys = ref(x), ref.paths()
    y = fe.run(f, S, x)
    if out == 'array':
        need(y.shape == tuple(c['batch']) + (len(keys), 1), 'global array shape %s', y.shape)
        vals = [y[..., i, :] for i in range(len(keys))]
    elif out == 'dict':
        need(set(y) == set(keys), 'dict keys differ from the paths of the filter banks')
        vals = [y[k] for k in keys]
    else:
        need([p['n'] for p in y] == keys, 'list paths differ from the sorted paths of the filter banks')
        vals = [p['coef'] for p in y]
    cmp.by_order(keys, vals, [r[k] for k in keys], x, f, 'T=%r' % cfg['T'],
                 gain=ref.g.Np if cfg['T'] == 'global' else 1.0)
    m1 = max(float(np.abs(r[k]).max()) for k in keys if len(k) == 1)
    return c['x']['kind'] != 'const' and m1 > 1e-6 * max(np.abs(x).max(), 1e-30)


def strat_stride(fes, **kw):
    @st.composite
    def s(draw):
        cfg = draw(gen.cfg1d(modes=('default', 'local'), stride=False, **kw))
        lt = int(math.floor(math.log2(cfg.get('T', 2 ** cfg['J']))))
        return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, log2s=draw(st.integers(0, lt)),
                    over=draw(st.booleans()), out=draw(st.sampled_from(['array', 'list', 'dict'])),
                    batch=draw(gen.batches()), x=draw(gen.signals()))
    return s


def aslist(y, out, n=None):
    if out == 'array':
        return [y[..., i, :] for i in range(y.shape[-2])]
    if out == 'dict':
        return [y[k] for k in sorted(y, key=lambda k: (len(k), k))]
    return [p['coef'] for p in y]


def body_stride(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    N = cfg['shape']
    x = sig(c, N)
    s = 2 ** c['log2s']
    lt = int(math.floor(math.log2(cfg.get('T', 2 ** cfg['J']))))
    Ss = fe.make(f, '1d', stride=s, out_type=c['out'], **cfg)
    ys = aslist(fe.run(f, Ss, x), c['out'])
    if c['over']:
        So = fe.make(f, '1d', oversampling=lt - c['log2s'], out_type=c['out'], **cfg)
        yo = aslist(fe.run(f, So, x), c['out'])
        need(len(yo) == len(ys), 'oversampling: %d paths instead of %d', len(yo), len(ys))
        for i, (a, b) in enumerate(zip(yo, ys)):
            fe.close(a, b, 1e-6 if f != 'numpy' else 1e-12, 'oversampling=%d vs stride=%d, path %d'
                     % (lt - c['log2s'], s, i), max(np.abs(x).max(), 1e-30))
        mo, ms = So.meta(), Ss.meta()
        need(mo['key'] == ms['key'], 'meta keys depend on oversampling')
        if c['log2s'] == lt:
            Sd = fe.make(f, '1d', out_type=c['out'], **cfg)
            for i, (a, b) in enumerate(zip(aslist(fe.run(f, Sd, x), c['out']), ys)):
                fe.close(a, b, 1e-6 if f != 'numpy' else 1e-12, 'default stride, path %d' % i,
                         max(np.abs(x).max(), 1e-30))
    S1 = fe.make(f, '1d', stride=1, out_type=c['out'], **cfg)
    y1 = aslist(fe.run(f, S1, x), c['out'])
    need(len(y1) == len(ys), '%d paths at stride %d, %d at stride 1', len(ys), s, len(y1))
    left = Geometry(N, cfg.get('T') or 2 ** cfg['J']).left
    off = s * (-(-left // s)) - left
    amp = max(float(np.abs(x).max()), 1e-30)
    for i, (a, b) in enumerate(zip(ys, y1)):
        need(b.shape[-1] == N, 'stride-1 output has %d samples for a signal of %d', b.shape[-1], N)
        tol = 1e-2 if i else (1e-9 if f == 'numpy' else 2e-5)
        fe.close(a, b[..., off::s], tol, 'stride %d vs subsampled stride 1, path %d' % (s, i), amp)
    return s > 1 and c['x']['kind'] != 'const' and len(ys) > 2


def large_modes():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'numpy', 'torch']), cfg=gen.cfg1d_large(modes=('global', 'zero'), stride=False), batch=st.sampled_from([[], [2]]), x=gen.signals(),
        out=st.sampled_from(['list', 'dict', 'array'])))


@st.composite
def large_stride(draw):
    cfg = draw(gen.cfg1d_large(modes=('default', 'local'), nmax=4096, stride=False))
    lt = int(math.floor(math.log2(cfg.get('T', 2 ** cfg['J']))))
    return dict(fe='numpy', cfg=cfg, log2s=draw(st.integers(max(0, lt - 4), lt)), over=draw(st.booleans()),
                out=draw(st.sampled_from(['array', 'list', 'dict'])), batch=[], x=draw(gen.signals()))


SUBS = [
    Sub('large_modes', large_modes, body_modes, 120, 3000, shards=1, rank=3),
    Sub('large_stride', large_stride, body_stride, 60, 1500, shards=1, rank=3),
    Sub('modes', strat_modes(['numpy']), body_modes, 2400, 40000, shards=2),
    Sub('modes-torch', strat_modes(['torch'], nmax=130), body_modes, 500, 8000, shards=1, rank=2),
    Sub('modes-tf', strat_modes(['tensorflow'], nmax=100, max_q=5), body_modes, 120, 3000, shards=1, rank=3),
    Sub('modes-jax', strat_modes(['jax'], nmax=70, max_q=4), body_modes, 40, 1000, shards=1, rank=3),
    Sub('stride', strat_stride(['numpy']), body_stride, 1600, 30000, shards=2),
    Sub('stride-torch', strat_stride(['torch'], nmax=130), body_stride, 250, 6000, shards=1, rank=2),
]
