"""C05: output formats carry the same coefficients."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from .c12 import array_ok

RULE = ('Generated configurations of Scattering1D, Scattering2D and TimeFrequencyScattering (both formats), per frontend; '
        'the same input is transformed with every out_type, on separate objects and by switching out_type on one object, '
        'and the coefficients are compared path by path. Non-trivial: at least 3 paths and a non-zero input.')
ASSUMPTIONS = ["format='joint', out_type='array' is not unpadded along frequency and skips order 0 (documented in the "
               'code): compared on the rows that the list output has']
PATH_KEYS_2D = ('n', 'j', 'theta')


def eq(a, b, what, scale):
    fe.close(a, np.asarray(b, dtype=np.float64), 2e-6 if a.dtype == np.float32 else 1e-12, what, max(scale, 1e-30))


def scale_of(vals):
    return max([float(np.abs(v).max()) for v in vals if v.size] or [0.0])


def strat_1d(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg1d(**kw), batch=gen.batches(), x=gen.signals(), switch=st.booleans()))


def outputs(c, f, tr, cfg, x, types):
    out = {}
    if c['switch']:
        S = fe.make(f, tr, out_type=types[0], **cfg)
        for t in types:
            S.out_type = t
            out[t] = fe.run(f, S, x)
        return S, out
    for t in types:
        S = fe.make(f, tr, out_type=t, **cfg)
        out[t] = fe.run(f, S, x)
    return S, out


def body_1d(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    x = gen.signal(c['x'], tuple(c['batch']) + (cfg['shape'],))
    types = ['list', 'dict'] + ([] if cfg.get('T') == 0 else ['array'])
    S, o = outputs(c, f, '1d', cfg, x, types)
    L, D = o['list'], o['dict']
    key = [p['n'] for p in L]
    need(len(set(key)) == len(key), 'paths of the list output are not distinct')
    need(set(D) == set(key), 'dict and list outputs have different paths')
    sc = scale_of([p['coef'] for p in L])
    m = call(S.meta)
    need([tuple(k) for k in m['key']] == key, 'list paths are not those of meta()')
    for i, p in enumerate(L):
        eq(D[p['n']], p['coef'], 'dict vs list, path %s' % (p['n'],), sc)
        need(p['order'] == len(p['n']) == m['order'][i], 'order of path %s', p['n'])
        need(tuple(p['j']) == tuple(m['j'][i][:p['order']].astype(int)), 'j of path %s', p['n'])
    if 'array' in o:
        A = o['array']
        need(A.shape[-2] == len(L), 'array output has %d channels, list %d', A.shape[-2], len(L))
        for i, p in enumerate(L):
            eq(A[..., i, :], p['coef'], 'array channel %d vs list path %s' % (i, p['n']), sc)
    return len(L) >= 3 and sc > 0


def strat_2d(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg2d(**kw), batch=gen.batches(), x=gen.images(), switch=st.booleans()))


def body_2d(c):
    cfg, f = gen.kw2d(c['cfg']), c['fe']
    x = gen.image(c['x'], tuple(c['batch']) + cfg['shape'])
    S, o = outputs(c, f, '2d', cfg, x, ['list', 'array'])
    L, A = o['list'], o['array']
    need(A.shape[-3] == len(L), 'array output has %d channels, list %d', A.shape[-3], len(L))
    sc = scale_of([p['coef'] for p in L])
    for i, p in enumerate(L):
        eq(A[..., i, :, :], p['coef'], 'array channel %d vs list path %s' % (i, p['n']), sc)
        need(len(p['n']) == len(p['j']) == len(p['theta']), 'descriptor lengths of path %s', p['n'])
        for n, j, t in zip(p['n'], p['j'], p['theta']):
            need(S.psi[n]['j'] == j and S.psi[n]['theta'] == t, 'path %s labelled (j, theta)=(%s, %s)', p['n'], j, t)
    order = [len(p['n']) for p in L]
    need(order == sorted(order), 'orders are not increasing')
    return len(L) >= 3 and sc > 0


def strat_j(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg_jtfs(**kw), batch=gen.batches(), x=gen.signals(), switch=st.booleans()))


def body_j(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    x = gen.signal(c['x'], tuple(c['batch']) + (cfg['shape'],))
    types = ['list', 'dict']
    fmt = cfg['format']
    if array_ok(cfg):
        types.append('array')
    S, o = outputs(c, f, 'jtfs', cfg, x, types)
    L, D = o['list'], o['dict']
    key = [p['n'] for p in L]
    need(len(set(key)) == len(key), 'paths of the list output are not distinct')
    need(set(D) == set(key), 'dict and list outputs have different paths')
    sc = scale_of([p['coef'] for p in L])
    for p in L:
        eq(D[p['n']], p['coef'], 'dict vs list, path %s' % (p['n'],), sc)
    if 'array' in o:
        A = o['array']
        if fmt == 'time':
            need(A.shape[-2] == len(L), 'array output has %d channels, list %d', A.shape[-2], len(L))
            for i, p in enumerate(L):
                eq(A[..., i, :], p['coef'], 'array channel %d vs list path %s' % (i, p['n']), sc)
        else:
            need(A.shape[-3] == len(L) - 1, 'joint array has %d channels, list %d', A.shape[-3], len(L))
            for i, p in enumerate(L[1:]):
                n1 = p['coef'].shape[-2]
                need(A.shape[-2] >= n1, 'joint array has %d rows, list %d', A.shape[-2], n1)
                eq(A[..., i, :n1, :], p['coef'], 'joint array channel %d vs list path %s' % (i, p['n']), sc)
    return len(L) >= 3 and sc > 0


def large1():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'torch']), cfg=gen.cfg1d_large(), batch=st.sampled_from([[], [2]]), x=gen.signals(),
        switch=st.booleans()))


def large2():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'torch']), cfg=gen.cfg2d_large(), batch=st.sampled_from([[], [2]]), x=gen.images(),
        switch=st.booleans()))


def largej():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'torch']), cfg=gen.cfg_jtfs_large(), batch=st.just([]), x=gen.signals(), switch=st.booleans()))


SUBS = [
    Sub('large1', large1, body_1d, 60, 1500, shards=1, rank=3),
    Sub('large2', large2, body_2d, 24, 700, shards=1, rank=3),
    Sub('largej', largej, body_j, 24, 700, shards=1, rank=3),
    Sub('1d', strat_1d(['numpy']), body_1d, 1500, 30000, shards=1),
    Sub('1d-torch', strat_1d(['torch'], nmax=100), body_1d, 300, 6000, shards=1, rank=2),
    Sub('1d-tf', strat_1d(['tensorflow', 'jax'], nmax=40, max_q=3, jmax=4), body_1d, 30, 900, shards=1, rank=3),
    Sub('2d', strat_2d(['numpy'], nmax=28), body_2d, 250, 5000, shards=1, rank=1),
    Sub('2d-torch', strat_2d(['torch'], nmax=28), body_2d, 120, 3000, shards=1, rank=2),
    Sub('2d-tf', strat_2d(['tensorflow', 'jax'], nmax=20, cost=10, jmax=3), body_2d, 30, 900, shards=1, rank=3),
    Sub('jtfs', strat_j(['numpy'], nmax=100), body_j, 350, 8000, shards=1, rank=1),
    Sub('jtfs-torch', strat_j(['torch'], nmax=70, max_q=3), body_j, 120, 3000, shards=1, rank=2),
]
