"""C02: 1-D filter banks."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen, ref1d
from ..harness import Sub, call, need

RULE = ('(a) generated Scattering1D configurations: every filter of psi1_f, psi2_f, phi_f at every level is compared '
        'with its closed form, plus l1 norm, mean, progression and level-availability invariants; (b) the filter '
        'functions on generated (N, xi, sigma, Q, J). Non-trivial: at least two wavelets in the first bank.')
ASSUMPTIONS = ['filters are exposed through the documented attributes psi1_f, psi2_f, phi_f',
               'kymatio.scattering1d.filter_bank keeps the functions its own tests import']


def strat_obj():
    return st.fixed_dictionaries(dict(
        cfg=gen.cfg1d(nmax=600, max_q=16, max_q2=4, jmax=9), fe=st.sampled_from(['numpy'])))


def arr(h):
    return fe.to_np(h).astype(np.float64).reshape(-1)


def check_filter(h, ref, what, tol):
    fe.close(arr(h), ref, tol, what, scale=max(1.0, float(np.abs(ref).max())))


def body_obj(c):
    cfg = gen.kw1d(c['cfg'])
    f = c['fe']
    S = fe.make(f, '1d', **cfg)
    R = ref1d.Ref1D(cfg['J'], cfg['shape'], cfg['Q'], cfg.get('T'), cfg.get('stride'), cfg['max_order'])
    tol = 1e-10 if f != 'torch' else 1e-6
    Np = R.g.Np
    local = R.mode == 'local'
    reach = lambda j: min(j, R.s) if local else j      # resolution after a wavelet of scale j
    # first- and second-order banks
    for order, (bank, ref) in enumerate(zip((S.psi1_f, S.psi2_f), R.bank), 1):
        need(len(bank) == len(ref), 'order-%d bank has %d wavelets, expected %d', order, len(bank), len(ref))
        for n, (p, q) in enumerate(zip(bank, ref)):
            tag = 'psi%d[%d]' % (order, n)
            need(abs(p['xi'] - q['xi']) <= 1e-10 and abs(p['sigma'] - q['sigma']) <= 1e-10,
                 '%s: (xi, sigma) = (%r, %r), expected (%r, %r)', tag, p['xi'], p['sigma'], q['xi'], q['sigma'])
            need(p['j'] == q['j'], '%s: j=%r, expected %r', tag, p['j'], q['j'])
            lv = p['levels']
            for k, h in enumerate(lv):
                if k > math.log2(Np):
                    break
                check_filter(h, ref1d.fold(q['h'], k), '%s level %d' % (tag, k), tol)
            h0 = arr(lv[0])
            need(abs(np.abs(np.fft.ifft(h0)).sum() - 1) < (1e-9 if tol < 1e-8 else 1e-5), '%s: l1 norm is not 1', tag)
            need(abs(h0[0]) < 1e-7, '%s: mean %g is not zero', tag, h0[0])
            if order == 2:
                ks = {reach(p1['j']) for p1 in S.psi1_f if p1['j'] < p['j']}
                need(all(k < len(lv) for k in ks), '%s: levels %d miss resolution(s) %s', tag, len(lv), ks)
    js = {0} | {reach(p['j']) for p in S.psi1_f} | {reach(p['j']) for p in S.psi2_f}
    phi = S.phi_f
    if local:
        need(all(k < len(phi['levels']) for k in js), 'phi: %d levels miss %s', len(phi['levels']), js)
    need(phi['xi'] == 0 and abs(phi['sigma'] - ref1d.SIGMA0 / R.Tval) < 1e-12, 'phi xi/sigma')
    need(phi['j'] == R.log2_T, 'phi j=%r, expected %r', phi['j'], R.log2_T)
    for k, h in enumerate(phi['levels']):
        if k > math.log2(Np):
            break
        check_filter(h, ref1d.fold(R.phi, k), 'phi level %d' % k, tol)
    # progression
    Q1 = ref1d.parse_Q(cfg['Q'])[0]
    xi = [p['xi'] for p in S.psi1_f]
    need(all(a > b for a, b in zip(xi, xi[1:])), 'center frequencies do not decrease')
    smin = ref1d.SIGMA0 / 2 ** cfg['J']
    need(all(p['sigma'] > smin * (1 - 1e-9) for p in S.psi1_f[:-1]), 'bandwidth below sigma0/2^J')
    return len(S.psi1_f) >= 2 and len(set(p['j'] for p in S.psi1_f)) >= 2


def strat_fn():
    return st.fixed_dictionaries(dict(
        N=st.one_of(st.integers(4, 300), st.sampled_from([8, 16, 64, 256, 512])),
        xi=st.floats(0.005, 0.5), sigma=st.one_of(st.floats(0.002, 0.2), st.floats(0.2, 2.0)),
        Q=st.integers(1, 24), J=st.integers(1, 12), sgn=st.sampled_from([1, 1, 1, -1]),
        alpha=st.sampled_from([5., 5., 4., 6., 3.]), eps=st.sampled_from([1e-3, 1e-2, 1e-4, 0.2]),
        seed=st.integers(0, 1000)))


def body_fn(c):
    from kymatio.scattering1d import filter_bank as fb
    N, Q, J = c['N'], c['Q'], c['J']
    xi, s = c['xi'] * c['sgn'], max(c['sigma'], 0.4 / N)
    if abs(xi) < 0.25 / N:
        xi = c['sgn'] * 0.25 / N
    h = call(fb.morlet_1d, N, xi, s)
    peak = ref1d.prenorm_peak(N, xi, s)     # cancellation of very wide or very narrow filters
    if peak > 1e-5:
        fe.close(h, ref1d.gabor_bank_filter(N, xi, s), (1e-10 if s < 0.3 else 1e-8) + 1e-12 / peak,
                 'morlet_1d(%d, %g, %g)' % (N, xi, s), 1.0)
    g = call(fb.gauss_1d, N, s)
    fe.close(g, ref1d.gabor_bank_filter(N, 0, s), 1e-10, 'gauss_1d(%d, %g)' % (N, s), 1.0)
    if s <= 0.12:       # wider Gaussians are not positive in time: l1 norm and mean differ
        need(abs(g[0] - 1) < 1e-6, 'gauss_1d has DC gain %g', g[0])
    need(abs(np.abs(np.fft.ifft(h)).sum() - 1) < 1e-9, 'morlet l1 norm')
    xm = call(fb.compute_xi_max, Q)
    need(abs(xm - max(1 / (1 + 2 ** (3 / Q)), 0.35)) < 1e-12, 'compute_xi_max(%d)=%r', Q, xm)
    for r in (math.sqrt(0.5), 0.3, 0.9, None):      # None: left out, documented as sqrt(0.5)
        sg = call(fb.compute_sigma_psi, c['xi'], Q, **({} if r is None else dict(r=r)))
        r = r or math.sqrt(0.5)
        # adjacent filters xi and xi*2^(-1/Q) meet at height r
        a = 2.0 ** (-1.0 / Q)
        w = c['xi'] * 2 * a / (1 + a)
        need(abs(math.exp(-(w - c['xi']) ** 2 / (2 * sg * sg)) - r) < 1e-9,
             'compute_sigma_psi(%g, %d, r=%g): neighbours do not meet at r', c['xi'], Q, r)
    j = call(fb.get_max_dyadic_subsampling, xi, s, alpha=c['alpha'])
    edge = min(abs(xi) + c['alpha'] * s, 0.5)
    if abs(math.log2(edge) - round(math.log2(edge))) > 1e-9:
        need(isinstance(j, int) and edge < 0.5 / 2 ** j and edge > 0.5 / 2 ** (j + 1),
             'get_max_dyadic_subsampling(%g, %g) = %r is not maximal', xi, s, j)
    got = list(call(lambda: list(fb.anden_generator(J, Q, sigma0=0.1, r_psi=math.sqrt(0.5)))))
    exp = ref1d.filter_params(J, Q)
    need(len(got) == len(exp), 'anden_generator(%d, %d): %d wavelets, expected %d', J, Q, len(got), len(exp))
    fe.close(np.array(got), np.array(exp), 1e-10, 'anden_generator', 1.0)
    sp, kw = call(fb.spin, fb.anden_generator, dict(sigma0=0.1, r_psi=math.sqrt(0.5), alpha=5.))
    both = list(sp(J, Q, **kw))
    need(both == [tuple(t) for t in got] + [(-x, y) for x, y in got], 'spin: not positives then negatives')
    hs = np.stack([np.abs(g)] + [np.abs(call(fb.gauss_1d, N, s / 2))])
    exp_sup = max(ref1d_support(row, c['eps']) for row in hs)
    got_sup = call(fb.compute_temporal_support, hs, criterion_amplitude=c['eps'])
    need(int(got_sup) == exp_sup, 'compute_temporal_support=%r, expected %d', got_sup, exp_sup)
    got_sup, exp_sup = call(fb.compute_temporal_support, hs), max(ref1d_support(row, 1e-3) for row in hs)
    need(int(got_sup) == exp_sup, 'compute_temporal_support without a criterion = %r, expected %d', got_sup, exp_sup)
    for eps in (None, c['eps']):
        P = call(fb.adaptive_choice_P, s, **({} if eps is None else dict(eps=eps)))
        e = eps or 1e-7
        need(math.exp(-(P - 1) ** 2 / (2 * s * s)) <= e * 1.0001, 'adaptive_choice_P(%g, %s)=%r too small', s, eps, P)
        need(P == 1 or math.exp(-(P - 2) ** 2 / (2 * s * s)) > e * 0.9999, 'adaptive_choice_P(%g, %s)=%r too large', s, eps, P)
    return N > 8 and Q > 1


def ref1d_support(h_hat, eps):
    h = np.abs(np.fft.ifft(h_hat))
    half = len(h) // 2
    best = half
    for n in range(half - 1, -1, -1):
        if h[n:half].sum() <= eps:
            best = n + 1
        else:
            break
    return best


def strat_fw():
    return st.fixed_dictionaries(dict(
        cfg=gen.cfg1d(nmax=150, max_q=6, jmax=6), fe=st.sampled_from(['torch', 'torch', 'jax', 'tensorflow'])))


def strat_fr():
    return st.fixed_dictionaries(dict(cfg=gen.cfg_jtfs(nmax=100)))


def body_fr(c):
    """frequential filters of TimeFrequencyScattering (filters_fr)"""
    kw = gen.kw1d(c['cfg'])
    if kw.get('T') == 0 or kw.get('F') == 0:
        kw['out_type'] = 'dict'
    S = fe.make('numpy', 'jtfs', **kw)
    R = ref1d.RefJTFS(kw['J'], kw['J_fr'], kw['Q'], kw['shape'], kw.get('T'), kw.get('stride'),
                      kw.get('Q_fr', 1), kw.get('F'), kw.get('stride_fr'))
    phi, psis = S.filters_fr
    need(len(psis) == len(R.fr), '%d frequential filters, expected %d', len(psis), len(R.fr))
    for n, (p, q) in enumerate(zip(psis, R.fr)):
        need(abs(p['xi'] - q['xi']) < 1e-10 and abs(p['sigma'] - q['sigma']) < 1e-10 and p['j'] == q['j'],
             'psi_fr[%d]: (%r, %r, %r), expected (%r, %r, %r)', n, p['xi'], p['sigma'], p['j'],
             q['xi'], q['sigma'], q['j'])
        if not ref1d.ill_conditioned(R.N_fr, q['xi'], q['sigma']):
            check_filter(p['levels'][0], q['h'], 'psi_fr[%d]' % n, 1e-9)
    for k, h in enumerate(phi['levels']):
        if R.N_fr % 2 ** k == 0:
            check_filter(h, ref1d.fold(R.phi_fr, k), 'phi_fr level %d' % k, 1e-10)
    return len(psis) > 3


def large():
    return st.fixed_dictionaries(dict(cfg=gen.cfg1d_large(), fe=st.sampled_from(['numpy', 'numpy', 'torch'])))


def large_fr():
    return st.fixed_dictionaries(dict(cfg=gen.cfg_jtfs_large()))


SUBS = [
    Sub('large', large, body_obj, 250, 6000, shards=2, rank=2),
    Sub('large_fr', large_fr, body_fr, 60, 1500, shards=1, rank=2),
    Sub('objects', strat_obj, body_obj, 1200, 30000, shards=4, rank=1),
    Sub('functions', strat_fn, body_fn, 2500, 60000, shards=2),
    Sub('frameworks', strat_fw, body_obj, 120, 3000, shards=1, rank=2),
    Sub('frequential', strat_fr, body_fr, 500, 10000, shards=1),
]
