"""C07: 2-D filter banks."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen, ref2d
from ..harness import Sub, call, need
from ..ref2d import Ref2D

RULE = ('(objects) generated (J, L, shape): every wavelet and low-pass of a Scattering2D object, at every level, against '
        'closed form, zero mean, realness and listing order; (functions) morlet_2d, gabor_2d and periodize_filter_fft on '
        'generated parameters. Non-trivial: J >= 2 or L >= 2.')
ASSUMPTIONS = ['filters are exposed through the documented attributes psi and phi',
               'tolerance 1e-5: the library stores filters built with pi = 3.1415 in the Gabor normalization']


def strat_obj(fes):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg2d(nmax=44, jmax=4, lmax=12, cost=500)))


def arr(h):
    h = fe.to_np(h)
    return h[..., 0] if h.ndim == 3 else h


def body_obj(c):
    cfg = gen.kw2d(c['cfg'])
    S = fe.make(c['fe'], '2d', **cfg)
    R = Ref2D(**cfg)
    J, L = cfg['J'], cfg['L']
    need(len(S.psi) == J * L, '%d wavelets, expected %d', len(S.psi), J * L)
    for n, (p, q) in enumerate(zip(S.psi, R.psi)):
        need((p['j'], p['theta']) == (q['j'], q['theta']), 'psi[%d] is (j, theta)=%s', n, (p['j'], p['theta']))
        need(len(p['levels']) >= max(1, q['j'] if cfg['max_order'] == 2 else 1), 'psi[%d] misses levels', n)
        for k, h in enumerate(p['levels']):
            h = arr(h)
            need(not np.iscomplexobj(h), 'psi[%d] level %d is complex', n, k)
            fe.close(h, ref2d.lowres(q['h'], k), 1e-5, 'psi[%d] level %d' % (n, k), 1.0)
            if k == 0:
                need(abs(h[0, 0]) < 1e-6, 'psi[%d] has mean %g', n, h[0, 0])
    need(len(S.phi['levels']) >= J, 'phi misses levels')
    for k, h in enumerate(S.phi['levels']):
        fe.close(arr(h), ref2d.lowres(R.phi, k), 1e-5, 'phi level %d' % k, 1.0)
    need(abs(arr(S.phi['levels'][0])[0, 0] - 1) < 1e-3, 'phi does not have unit mean')
    return J >= 2 or L >= 2


def strat_fn():
    return st.fixed_dictionaries(dict(
        M=st.integers(2, 40), N=st.integers(2, 40), sigma=st.floats(0.4, 8.0), theta=st.floats(-3.2, 3.2),
        xi=st.one_of(st.floats(0.1, 3.1), st.just(0.0)), slant=st.floats(0.3, 4.0), res=st.integers(0, 3),
        offset=st.integers(-20, 20), fb=st.tuples(st.integers(1, 3), st.integers(3, 6), st.integers(3, 6)), seed=st.integers(0, 999)))


def body_fn(c):
    from kymatio.scattering2d import filter_bank as fb
    M, N = c['M'], c['N']
    a = (M, N, c['sigma'], c['theta'], c['xi'], c['slant'])
    g = call(fb.gabor_2d, *a)
    sc = max(1.0, float(np.abs(ref2d.gabor(*a)).max()))
    fe.close(np.real(g), ref2d.gabor(*a).real, 1e-5, 'gabor_2d%s real part' % (a,), sc)
    fe.close(np.imag(g), ref2d.gabor(*a).imag, 1e-5, 'gabor_2d%s imaginary part' % (a,), sc)
    if c['xi'] > 0:
        m = call(fb.morlet_2d, *a)
        r = ref2d.morlet(*a)
        fe.close(np.real(m), r.real, 1e-5, 'morlet_2d%s real part' % (a,), sc)
        fe.close(np.imag(m), r.imag, 1e-5, 'morlet_2d%s imaginary part' % (a,), sc)
        need(abs(m.sum()) < 1e-4 * max(1, np.abs(r).sum()), 'morlet_2d%s has mean %s', a, m.sum())
    # arguments left out take their documented meaning: slant 1 (Gabor), slant 0.5 (Morlet), origin at entry [0, 0]
    b, o = a[:5], c['offset']
    for name, got, ref in (
            ('gabor_2d', call(fb.gabor_2d, *b), ref2d.gabor(*b, 1.0)),
            ('gabor_2d offset %d' % o, call(fb.gabor_2d, *a, offset=o), ref2d.gabor(*a, offset=o))):
        fe.close(np.asarray(got).view(np.float32) if np.asarray(got).dtype == np.complex64 else got,
                 ref.astype(np.complex128).view(np.float64), 1e-5, '%s%s' % (name, b), max(1.0, float(np.abs(ref).max())))
    if c['xi'] > 0:
        m, r = call(fb.morlet_2d, *b), ref2d.morlet(*b, 0.5)
        sc = max(1.0, float(np.abs(r).max()))
        fe.close(np.real(m), r.real, 1e-5, 'morlet_2d%s real part' % (b,), sc)
        fe.close(np.imag(m), r.imag, 1e-5, 'morlet_2d%s imaginary part' % (b,), sc)
    if c['seed'] % 16 == 0:
        j, e1, e2 = c['fb'][0], 2 ** c['fb'][1], 2 ** c['fb'][2]
        d, full = call(fb.filter_bank, e1, e2, j), call(fb.filter_bank, e1, e2, j, 8)
        need(len(d['psi']) == len(full['psi']) == 8 * j, 'filter_bank without L has %d wavelets, documented L=8 gives %d',
             len(d['psi']), 8 * j)
        for n, (x, y) in enumerate(zip(d['psi'], full['psi'])):
            need((x['j'], x['theta']) == (y['j'], y['theta']), 'filter_bank without L: psi[%d] differs from L=8', n)
            fe.close(np.asarray(x['levels'][0]), np.asarray(y['levels'][0]), 1e-7, 'filter_bank without L psi[%d]' % n, 1.0)
    k = 2 ** c['res']
    M2, N2 = k * (-(-M // k)), k * (-(-N // k))
    h = np.random.RandomState(c['seed']).randn(M2, N2)
    p = call(fb.periodize_filter_fft, h, c['res'])
    fe.close(np.real(p), ref2d.lowres(h, c['res']), 1e-9, 'periodize_filter_fft res %d' % c['res'], 1.0)
    return min(M, N) > 3 and c['res'] > 0


def large():
    return st.fixed_dictionaries(dict(fe=st.sampled_from(['numpy', 'numpy', 'torch']), cfg=gen.cfg2d_large()))


SUBS = [
    Sub('large', large, body_obj, 30, 1000, shards=2, rank=4),
    Sub('objects', strat_obj(['numpy']), body_obj, 400, 9000, shards=4, rank=1),
    Sub('functions', strat_fn, body_fn, 800, 20000, shards=2),
    Sub('frameworks', strat_obj(['torch', 'tensorflow', 'jax']), body_obj, 40, 1000, shards=1, rank=2),
]
