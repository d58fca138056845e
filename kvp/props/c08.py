"""C08: layout of Scattering2D outputs."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from ..ref2d import Ref2D

RULE = ('(layout) generated configurations, batch shapes, frontends and out_types: channel count, path order, spatial and '
        'batch shape, and every labelled coefficient against the reference coefficient of the filters its label names; '
        '(probe) pre-padded plane waves at the centre of one wavelet: the channel labelled with that wavelet must respond '
        'most. Non-trivial: at least two wavelets (probe: the reference predicts a 10 % margin).')
ASSUMPTIONS = ['a Morlet wavelet responds most to its centre frequency (margin taken from the closed form)']


def expected_paths(J, L, order):
    out = [((), ())]
    w = [(j, t) for j in range(J) for t in range(L)]
    out += [((j,), (t,)) for j, t in w]
    if order == 2:
        out += [((j1, j2), (t1, t2)) for j1, t1 in w for j2, t2 in w if j2 > j1]
    return out


def strat_layout(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg2d(pre_pad=True, lmax=12, **kw), batch=gen.batches(),
        x=gen.images(kinds=['noise', 'edge', 'impulse']), out=st.sampled_from(['list', 'list', 'array'])))


def body_layout(c):
    cfg, f = gen.kw2d(c['cfg']), c['fe']
    J, L, order = cfg['J'], cfg['L'], cfg['max_order']
    M, N = cfg['shape']
    R = Ref2D(**cfg)
    x = gen.image(c['x'], tuple(c['batch']) + (R.P if cfg['pre_pad'] else cfg['shape']))
    S = fe.make(f, '2d', out_type=c['out'], **cfg)
    y = fe.run(f, S, x)
    paths = expected_paths(J, L, order)
    K = 1 + J * L + (L * L * J * (J - 1) // 2 if order == 2 else 0)
    assert len(paths) == K
    sp = tuple(c['batch']) + (M // 2 ** J, N // 2 ** J)
    r = R(x)
    byp = {(p['j'], p['theta']): r[p['n']] for p in R.paths()}
    sc = {o: max(float(np.abs(r[p['n']]).max()) for p in R.paths() if len(p['n']) == o)
          for o in range(3) if any(len(p['n']) == o for p in R.paths())}
    if c['out'] == 'array':
        need(y.ndim == len(c['batch']) + 3, 'output of rank %d', y.ndim)
        need(y.shape[-3] == K, '%d channels, expected %d', y.shape[-3], K)
        y = [dict(coef=y[..., i, :, :], j=p[0], theta=p[1], n=None) for i, p in enumerate(paths)]
    need(len(y) == K, '%d paths, expected %d', len(y), K)
    got = [(tuple(p['j']), tuple(p['theta'])) for p in y]
    need(got == paths, 'paths are not ordered by order, then scale and angle: %s ...', got[:8])
    for p in y:
        need(p['coef'].shape == sp, 'map of shape %s, expected %s', p['coef'].shape, sp)
        if p['n'] is not None:
            need(tuple(p['n']) == tuple(j * L + t for j, t in zip(p['j'], p['theta'])), 'n=%s for (j, theta)=%s', p['n'],
                 (p['j'], p['theta']))
        k = (tuple(p['j']), tuple(p['theta']))
        fe.close(p['coef'], byp[k], 1e-3, 'coefficient labelled %s' % (k,), max(sc[len(k[0])], 1e-3 * np.abs(x).max()))
    return J * L >= 2


def strat_probe(fes):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), J=st.integers(1, 3), L=st.integers(2, 10), M=st.integers(8, 40), N=st.integers(8, 40),
        pick=st.integers(0, 10 ** 6), phase=st.floats(0, 6.3)))


def body_probe(c):
    J, L, f = c['J'], c['L'], c['fe']
    shape = (c['M'], c['N'])
    R = Ref2D(J, shape, L, 1, True)
    n = c['pick'] % (J * L)
    h = np.abs(R.psi[n]['h'])
    k = np.unravel_index(np.argmax(h), h.shape)
    resp = np.array([abs(p['h'][k]) + abs(p['h'][-k[0], -k[1]]) for p in R.psi])
    best = np.argsort(-resp)
    if best[0] != n or resp[best[1]] > 0.9 * resp[n]:
        return False
    u, v = np.meshgrid(np.arange(R.P[0]), np.arange(R.P[1]), indexing='ij')
    x = np.cos(2 * np.pi * (k[0] * u / R.P[0] + k[1] * v / R.P[1]) + c['phase'])
    S = fe.make(f, '2d', J=J, shape=shape, L=L, max_order=1, pre_pad=True, out_type='list')
    y = fe.run(f, S, x)
    e = [float(np.abs(p['coef']).mean()) if len(p['n']) == 1 else -1 for p in y]
    top = y[int(np.argmax(e))]
    need((tuple(top['j']), tuple(top['theta'])) == ((R.psi[n]['j'],), (R.psi[n]['theta'],)),
         'a wave at the centre of wavelet (j, theta)=%s responds most in the path labelled %s',
         (R.psi[n]['j'], R.psi[n]['theta']), (top['j'], top['theta']))
    return True


SUBS = [
    Sub('layout', strat_layout(['numpy'], nmax=32, cost=80), body_layout, 500, 10000, shards=3, rank=1),
    Sub('layout-torch', strat_layout(['torch'], nmax=28), body_layout, 120, 3000, shards=1, rank=2),
    Sub('layout-tf', strat_layout(['tensorflow', 'jax'], nmax=20, cost=10, jmax=3), body_layout, 40, 1000, shards=1, rank=3),
    Sub('probe', strat_probe(['numpy', 'numpy', 'torch']), body_probe, 300, 8000, shards=2, rank=2),
]
