"""C10: 3-D solid harmonic and Gaussian filters."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen, ref3d
from ..harness import Sub, call, need

RULE = ('(objects) filters and gaussian_filters of generated HarmonicScattering3D objects; (functions) solid_harmonic_3d, '
        'gaussian_3d and the filter bank functions on generated (M, N, O, sigma, l, fourier), against closed form with an '
        'independent Legendre recursion, plus zero mean, radiality of sum_m |.|^2, and inverse-transform consistency. '
        'Non-trivial: l >= 1 occurs and the grid is not a cube of even side.')
ASSUMPTIONS = ['filters are exposed as filters[l][j, m] and gaussian_filters[j]', 'complex64 storage: 2e-5 of the peak']


def to_c(h):
    h = fe.to_np(h)
    if h.ndim and h.shape[-1] == 2 and not np.iscomplexobj(h):
        h = h[..., 0] + 1j * h[..., 1]
    return h


def cmpc(a, b, what, tol=2e-5):
    sc = max(float(np.abs(b).max()), 1e-30)
    a = np.asarray(a)
    need(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    e = float(np.abs(a.astype(complex) - b).max()) if a.size else 0
    need(e <= tol * sc, '%s: max deviation %.2e (tolerance %.1e x %.2e)', what, e, tol, sc)


def strat_obj(fes):
    return lambda: st.fixed_dictionaries(dict(fe=st.sampled_from(fes), cfg=gen.cfg3d(
        dims=(3, 4, 5, 6, 7, 8, 9, 11, 12), jmax=2, lmax=5)))


def body_obj(c):
    cfg, f = gen.kw3d(c['cfg']), c['fe']
    S = fe.make(f, '3d', **cfg)
    M, N, O = cfg['shape']
    need(len(S.filters) == cfg['L'] + 1, '%d filter orders, expected %d', len(S.filters), cfg['L'] + 1)
    for l in range(cfg['L'] + 1):
        h = to_c(S.filters[l])
        need(h.shape == (cfg['J'] + 1, 2 * l + 1, M, N, O), 'filters[%d] has shape %s', l, h.shape)
        for j in range(cfg['J'] + 1):
            r = ref3d.harmonic_bank(M, N, O, cfg['sigma_0'] * 2 ** j, l)
            cmpc(h[j], r, 'filters[%d][%d]' % (l, j))
            if l:
                need(float(np.abs(h[j][:, 0, 0, 0]).max()) < 1e-6, 'filters[%d][%d] has a mean', l, j)
    g = to_c(S.gaussian_filters)
    need(g.shape[0] >= cfg['J'] + 1, 'gaussian_filters has %d scales', g.shape[0])
    for j in range(g.shape[0]):
        cmpc(g[j], ref3d.harmonic_bank(M, N, O, cfg['sigma_0'] * 2 ** j, 0)[0], 'gaussian_filters[%d]' % j)
    return cfg['L'] >= 1 and (len({M, N, O}) > 1 or M % 2 == 1)


def strat_fn():
    return st.fixed_dictionaries(dict(
        M=st.integers(1, 14), N=st.integers(1, 14), O=st.integers(1, 14), sigma=st.floats(0.4, 6.0),
        l=st.integers(0, 7), fourier=st.booleans(), J=st.integers(0, 2)))


def body_fn(c):
    from kymatio.scattering3d import filter_bank as fb
    M, N, O, s, l, F = c['M'], c['N'], c['O'], c['sigma'], c['l'], c['fourier']
    tag = '(%d, %d, %d, sigma=%.3g, l=%d, fourier=%s)' % (M, N, O, s, l, F)
    h = call(fb.solid_harmonic_3d, M, N, O, s, l, fourier=F)
    r = ref3d.harmonic_bank(M, N, O, s, l, F)
    peak = float(np.abs(r).max())
    if peak > 1e-25:
        cmpc(h, r, 'solid_harmonic_3d' + tag, 1e-4)
        if l:
            need(abs(h[:, 0, 0, 0]).max() <= 1e-6 * peak, 'solid_harmonic_3d%s is not zero at the origin', tag)
        # sum over m is radial
        e = (np.abs(h.astype(complex)) ** 2).sum(0)
        z, y, x = ref3d.grids(M, N, O, F)
        r2 = np.round(z * z + y * y + x * x, 8)
        for v in np.unique(r2)[:40]:
            w = e[r2 == v]
            need(np.ptp(w) <= 1e-4 * peak ** 2 * (2 * l + 1), 'sum_m |solid_harmonic_3d%s|^2 is not radial', tag)
    g = call(fb.gaussian_3d, M, N, O, s, fourier=F)
    rg = ref3d.harmonic_bank(M, N, O, s, 0, F)[0]
    cmpc(g, rg, 'gaussian_3d' + tag)
    if F:
        need(abs(g[0, 0, 0] - 1) < 1e-6, 'gaussian_3d%s does not have unit integral', tag)
    elif min(M, N, O) >= 8 * s and s >= 0.9:
        need(abs(g.sum() - 1) < 1e-2, 'gaussian_3d%s sums to %g', tag, g.sum())
    if F:       # Fourier space is the default
        need(np.array_equal(call(fb.solid_harmonic_3d, M, N, O, s, l), h), 'solid_harmonic_3d%s: default is not Fourier', tag)
        need(np.array_equal(call(fb.gaussian_3d, M, N, O, s), g), 'gaussian_3d%s: default is not Fourier', tag)
    # Fourier and signal-space constructions are a transform pair where both grids resolve the wavelet
    n, sg, lo = 12 + (M % 3), 1.0 + 0.2 * (N % 3), min(l, 3)
    a = np.fft.ifftn(call(fb.solid_harmonic_3d, n, n + O % 2, n, sg, lo, fourier=True), axes=(1, 2, 3))
    b = call(fb.solid_harmonic_3d, n, n + O % 2, n, sg, lo, fourier=False)
    cmpc(a, b.astype(complex), 'transform pair of solid_harmonic_3d n=%d sigma=%g l=%d' % (n, sg, lo), 0.15)
    bank = call(fb.solid_harmonic_filter_bank, M, N, O, c['J'], min(l, 2), s, fourier=F)
    for ll, hh in enumerate(bank):
        need(hh.shape == (c['J'] + 1, 2 * ll + 1, M, N, O), 'bank shape %s', hh.shape)
        for j in range(c['J'] + 1):
            rr = ref3d.harmonic_bank(M, N, O, s * 2 ** j, ll, F)
            if np.abs(rr).max() > 1e-25:
                cmpc(hh[j], rr, 'solid_harmonic_filter_bank%s[%d][%d]' % (tag, ll, j), 1e-4)
    gb = call(fb.gaussian_filter_bank, M, N, O, c['J'], s, fourier=F)
    need(gb.shape[0] == c['J'] + 1, 'gaussian_filter_bank has %d scales, documented J+1', gb.shape[0])
    for j in range(c['J'] + 1):
        cmpc(gb[j], ref3d.harmonic_bank(M, N, O, s * 2 ** j, 0, F)[0], 'gaussian_filter_bank%s[%d]' % (tag, j))
    if F:
        for x, y in zip(call(fb.solid_harmonic_filter_bank, M, N, O, c['J'], min(l, 2), s), bank):
            need(np.array_equal(x, y), 'solid_harmonic_filter_bank%s: default is not Fourier', tag)
        need(np.array_equal(call(fb.gaussian_filter_bank, M, N, O, c['J'], s), gb),
             'gaussian_filter_bank%s: default is not Fourier', tag)
    return l >= 1 and (len({M, N, O}) > 1 or M % 2 == 1)


def large():
    return st.fixed_dictionaries(dict(fe=st.sampled_from(['numpy', 'torch']), cfg=gen.cfg3d_large()))


SUBS = [
    Sub('large', large, body_obj, 60, 1500, shards=1, rank=3),
    Sub('objects', strat_obj(['numpy']), body_obj, 500, 10000, shards=2),
    Sub('functions', strat_fn, body_fn, 800, 20000, shards=2),
    Sub('frameworks', strat_obj(['torch', 'tensorflow', 'jax']), body_obj, 80, 2000, shards=1, rank=2),
]
