"""C20: scattering commutes with the symmetries of its grid."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from .c14 import flatten

RULE = ('(reverse) even-length signals, stride 1, any J, Q, T: S(reversed x) is the reversed S(x). (shift1d) signals supported '
        'in the middle, shifted by multiples of the stride: interior coefficients shift. (cyclic) pre-padded images rolled '
        'by multiples of 2^J along both axes. (transpose) images transposed, L even: maps are transposed and the angles of '
        'every path reflected. (flip) pre-padded images mirrored about a grid point along one or both axes. (spin) a reversed '
        'signal gives the reversed joint time-frequency coefficients of opposite spin. All out_types, frontends and batch shapes. Non-trivial: noise-like signals with a non-zero '
        'shift or a coefficient that moves.')
ASSUMPTIONS = ['1e-9 (NumPy 1-D), 1e-6 (NumPy 2-D), 3e-5 (float32) of the largest coefficient; shift1d: 1e-4 of the '
               'amplitude times the support, since filters have unbounded support']


def rnd(f, v):
    return v if f == 'numpy' else v.astype(np.float32).astype(np.float64)


def paths(f, S, x, tr, ax):
    ks = flatten(call(S, fe.to_fw(f, np.ascontiguousarray(x))))
    if ks[0][0] is not None:
        return [(k, fe.to_np(v)) for k, v in ks]
    v = np.moveaxis(fe.to_np(ks[0][1]), ax, 0)
    return [((i,), v[i]) for i in range(len(v))]


def compare(A, B, tol, floor, what):
    """A, B lists of (key, array); the order-0 path is scaled on its own"""
    need([k for k, _ in A] == [k for k, _ in B], '%s: paths differ', what)
    s = max([float(np.abs(v).max()) for k, v in B[1:] if v.size] + [floor])
    for i, ((k, a), (_, b)) in enumerate(zip(A, B)):
        fe.close(a, b, tol, '%s, path %s' % (what, k), s if i else max(s, float(np.abs(b).max()) if b.size else 0))


@st.composite
def s_reverse(draw, fes, nmax):
    cfg = draw(gen.cfg1d(nmax=nmax, modes=('default', 'local'), stride=False))
    cfg['shape'] += cfg['shape'] % 2
    cfg['stride'] = 1
    return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, batch=draw(gen.batches(False)), x=draw(gen.signals()),
                out=draw(st.sampled_from(['array', 'list', 'dict'])))


def b_reverse(c):
    kw, f = gen.kw1d(c['cfg']), c['fe']
    x = rnd(f, gen.signal(c['x'], tuple(c['batch']) + (kw['shape'],)))
    S = fe.make(f, '1d', out_type=c['out'], **kw)
    A = paths(f, S, x[..., ::-1], '1d', -2)
    B = [(k, v[..., ::-1]) for k, v in paths(f, S, x, '1d', -2)]
    compare(A, B, 1e-9 if f == 'numpy' else 3e-5, 1e-2 * float(np.abs(x).max()), 'time reversal')
    return c['x']['kind'] not in ('const',) and kw['shape'] > 4


@st.composite
def s_shift(draw, fes):
    J = draw(st.integers(1, 3))
    N = draw(st.integers(160, 320)) if J < 3 else draw(st.integers(300, 520))
    cfg = dict(J=J, shape=N, Q=draw(gen.Qs(3, 2)), max_order=2)
    s = draw(st.integers(0, J))
    if s < J:
        cfg['stride'] = 2 ** s
    return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, width=draw(st.integers(1, 12)), seed=draw(st.integers(0, 10 ** 6)),
                shift=draw(st.integers(-2, 2).filter(lambda v: v)), out=draw(st.sampled_from(['array', 'list', 'dict'])))


def b_shift(c):
    kw, f = gen.kw1d(c['cfg']), c['fe']
    N, w, J = kw['shape'], c['width'], kw['J']
    s = kw.get('stride', 2 ** J)
    d = c['shift'] * s
    x = np.zeros(N)
    x[N // 2:N // 2 + w] = np.random.RandomState(c['seed']).randn(w)
    x = rnd(f, x)
    S = fe.make(f, '1d', out_type=c['out'], **kw)
    P, R = paths(f, S, x, '1d', -2), paths(f, S, np.roll(x, d), '1d', -2)
    m = max(abs(c['shift']), int(0.25 * N) // s)
    n = P[0][1].shape[-1]
    if n - 2 * m < 3:
        return False
    A = [(k, v[..., m + c['shift']:n - m + c['shift']]) for k, v in R]
    B = [(k, v[..., m:n - m]) for k, v in P]
    compare(A, B, 1e-4, float(np.abs(x).max()) * min(1.0, w / 2 ** J), 'shift by %d' % d)
    return True


@st.composite
def s_cyclic(draw, fes, small):
    cfg = draw(gen.cfg2d(nmax=20 if small else 44, cost=6 if small else 40, jmax=2 if small else 3))
    cfg['pre_pad'] = True
    return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, batch=draw(gen.batches(False)), x=draw(gen.images()),
                s=[draw(st.integers(-4, 4)), draw(st.integers(-4, 4))], out=draw(st.sampled_from(['array', 'list'])))


def b_cyclic(c):
    kw, f = gen.kw2d(c['cfg']), c['fe']
    k = 2 ** kw['J']
    sh = tuple(((n + k) // k + 1) * k for n in kw['shape'])
    x = rnd(f, gen.image(c['x'], tuple(c['batch']) + sh))
    S = fe.make(f, '2d', out_type=c['out'], **kw)
    A = paths(f, S, np.roll(x, (c['s'][0] * k, c['s'][1] * k), axis=(-2, -1)), '2d', -3)
    B = paths(f, S, x, '2d', -3)
    sl_a, sl_b, ok = [], [], True
    for n, m, s in zip(sh, B[0][1].shape[-2:], c['s']):
        P = n // k                      # period of the uncropped map
        need(m == P - 2, 'map of size %d, expected %d', m, P - 2)
        idx = [i for i in range(m) if 0 <= (i + 1 - s) % P - 1 < m]
        sl_a.append(idx)
        sl_b.append([(i + 1 - s) % P - 1 for i in idx])
        ok = ok and bool(idx)
    if not ok:
        return False
    A = [(q, v[..., sl_a[0], :][..., sl_a[1]]) for q, v in A]
    B = [(q, v[..., sl_b[0], :][..., sl_b[1]]) for q, v in B]
    compare(A, B, 1e-6 if f == 'numpy' else 3e-5, 0.3 * float(np.abs(x).max()), 'cyclic shift')
    return c['x']['kind'] != 'const' and any(c['s'])


@st.composite
def s_transpose(draw, fes, small):
    cfg = draw(gen.cfg2d(nmax=20 if small else 40, cost=16 if small else 60, jmax=2 if small else 3, pre_pad=True))
    cfg['L'] = max(2, cfg['L'] - cfg['L'] % 2)
    return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, batch=draw(gen.batches(False)), x=draw(gen.images()),
                out=draw(st.sampled_from(['array', 'list'])))


def b_transpose(c):
    kw, f = gen.kw2d(c['cfg']), c['fe']
    L, J = kw['L'], kw['J']
    sh = kw['shape']
    if kw['pre_pad']:
        k = 2 ** J
        sh = tuple(((n + k) // k + 1) * k for n in sh)
    x = rnd(f, gen.image(c['x'], tuple(c['batch']) + sh))
    S = fe.make(f, '2d', out_type=c['out'], **kw)
    kt = dict(kw, shape=kw['shape'][::-1])
    A = paths(f, fe.make(f, '2d', out_type=c['out'], **kt), np.swapaxes(x, -1, -2), '2d', -3)
    B = paths(f, S, x, '2d', -3)
    a = int(L - L / 2 - 1)
    refl = [n // L * L + (2 * a - L // 2 - n % L) % L for n in range(J * L)]
    keys = [()] + [(n,) for n in range(J * L)]
    if kw['max_order'] == 2:
        keys += [(n, m) for n in range(J * L) for m in range(J * L) if m // L > n // L]
    need(len(keys) == len(B), '%d paths, expected %d', len(B), len(keys))
    pos = {k: i for i, k in enumerate(keys)}
    Bt = [(B[i][0], np.swapaxes(B[pos[tuple(refl[n] for n in k)]][1], -1, -2)) for i, k in enumerate(keys)]
    # narrow angular sampling: the one-sided Nyquist truncation of coarse filters is not symmetric (measured 1e-4)
    compare(A, Bt, 2e-3 if L <= 4 else 1e-5 if f == 'numpy' else 3e-5, 0.3 * float(np.abs(x).max()), 'transposition')
    return c['x']['kind'] != 'const'


@st.composite
def s_flip(draw, fes, small):
    cfg = draw(gen.cfg2d(nmax=20 if small else 44, cost=16 if small else 60, jmax=2 if small else 3))
    cfg['pre_pad'] = True
    return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, batch=draw(gen.batches(False)), x=draw(gen.images()),
                axes=draw(st.sampled_from([[-1], [-2], [-2, -1], [-2, -1]])), out=draw(st.sampled_from(['array', 'list'])))


def cflip(v, ax):
    """v[-i mod n] along an axis"""
    return np.roll(np.flip(v, ax), 1, ax)


def b_flip(c):
    """Pre-padded images mirrored about a grid point: maps are mirrored; one mirror
    reflects the angles (L even), two keep them."""
    kw, f = gen.kw2d(c['cfg']), c['fe']
    L, J = kw['L'], kw['J']
    if len(c['axes']) == 1 and L % 2:
        return False
    k = 2 ** J
    sh = tuple(((n + k) // k + 1) * k for n in kw['shape'])
    x = rnd(f, gen.image(c['x'], tuple(c['batch']) + sh))
    S = fe.make(f, '2d', out_type=c['out'], **kw)
    y = x
    for ax in c['axes']:
        y = cflip(y, ax)
    A = paths(f, S, y, '2d', -3)
    B = paths(f, S, x, '2d', -3)
    if len(c['axes']) == 1:
        a = int(L - L / 2 - 1)
        refl = [n // L * L + (2 * a - n % L) % L for n in range(J * L)]
    else:
        refl = list(range(J * L))
    keys = [()] + [(n,) for n in range(J * L)]
    if kw['max_order'] == 2:
        keys += [(n, m) for n in range(J * L) for m in range(J * L) if m // L > n // L]
    need(len(keys) == len(B), '%d paths, expected %d', len(B), len(keys))
    pos = {q: i for i, q in enumerate(keys)}
    out_a, out_b = [], []
    for i, q in enumerate(keys):
        u, v = A[i][1], B[pos[tuple(refl[n] for n in q)]][1]
        for ax in (-2, -1):
            # cropped maps hold the samples 1 .. P - 2 of the period: mirroring maps sample i to P - i
            if ax in c['axes']:
                n = v.shape[ax]
                idx = np.arange(1, n)
                u = np.take(u, idx, ax)
                v = np.take(v, n - idx, ax)
        out_a.append((A[i][0], u))
        out_b.append((A[i][0], v))
    if not out_b[0][1].size:
        return False
    compare(out_a, out_b, 2e-3 if L <= 4 else 1e-5 if f == 'numpy' else 3e-5, 0.3 * float(np.abs(x).max()), 'mirror image')
    return c['x']['kind'] != 'const'


@st.composite
def s_spin(draw, fes, nmax, max_q=4):
    cfg = draw(gen.cfg_jtfs(nmax=nmax, modes=('default', 'local'), max_q=max_q, jmax=5))
    cfg['shape'] += cfg['shape'] % 2
    cfg['stride'] = 1
    return dict(fe=draw(st.sampled_from(fes)), cfg=cfg, batch=draw(gen.batches(False)), x=draw(gen.signals()),
                out=draw(st.sampled_from(['list', 'dict'])), spin=True)


def b_spin(c):
    """Time reversal of joint time-frequency coefficients: reversed, spins exchanged.
    The periodisation of the Gabor filters is truncated at [1-P, P), so filters of frequency -xi mirror those of xi to
    about 1e-5 only."""
    kw, f = gen.kw1d(c['cfg']), c['fe']
    x = rnd(f, gen.signal(c['x'], tuple(c['batch']) + (kw['shape'],)))
    S = fe.make(f, 'jtfs', out_type=c['out'], **kw)
    A = paths(f, S, x[..., ::-1], 'jtfs', None)
    B = paths(f, S, x, 'jtfs', None)
    m = call(S.meta)
    keys = [tuple(k) for k in m['key']]
    need([tuple(k) for k, _ in B] == keys, 'paths differ from meta')
    pos = {}
    for i in range(len(keys)):
        pos[(m['order'][i], str(list(m['n'][i])), float(m['xi_fr'][i]) if m['order'][i] else None, m['sigma_fr'][i] if m['order'][i] else None)] = i
    Bt = []
    for i, k in enumerate(keys):
        j = i
        if m['order'][i] == 2 and m['spin'][i]:
            j = pos.get((2, str(list(m['n'][i])), -float(m['xi_fr'][i]), m['sigma_fr'][i]))
            need(j is not None, 'path %s has no counterpart of opposite spin', k)
        Bt.append((B[i][0], B[j][1][..., ::-1]))
    scale = {}
    for o in (0, 1, 2):
        a = [(k, v) for (k, v), q in zip(A, m['order']) if q == o]
        b = [(k, v) for (k, v), q in zip(Bt, m['order']) if q == o]
        s = max([float(np.abs(v).max()) for _, v in b if v.size] + [1e-2 * float(np.abs(x).max()) if o < 2 else 1e-3 * float(np.abs(x).max())])
        for (k, u), (_, v) in zip(a, b):
            fe.close(u, v, 1e-4, 'time reversal with exchanged spins, path %s' % (k,), s)
    return c['x']['kind'] not in ('const',) and any(m['spin'] != 0)


SUBS = [
    Sub('flip', lambda: s_flip(['numpy'], False), b_flip, 250, 5000, shards=1, rank=1),
    Sub('spin', lambda: s_spin(['numpy'], 130), b_spin, 200, 4000, shards=1, rank=1),
    Sub('spin_torch', lambda: s_spin(['torch'], 64, 2), b_spin, 60, 1500, shards=1, rank=2),
    Sub('reverse', lambda: s_reverse(['numpy'], 257), b_reverse, 900, 18000, shards=1, rank=1),
    Sub('shift1d', lambda: s_shift(['numpy']), b_shift, 300, 6000, shards=1, rank=1),
    Sub('cyclic', lambda: s_cyclic(['numpy'], False), b_cyclic, 350, 7000, shards=1, rank=1),
    Sub('transpose', lambda: s_transpose(['numpy'], False), b_transpose, 250, 5000, shards=1, rank=1),
    Sub('torch_1d', lambda: st.one_of(s_reverse(['torch'], 130), s_shift(['torch'])),
        lambda c: (b_shift if 'shift' in c else b_reverse)(c), 250, 5000, shards=1, rank=2),
    Sub('torch_2d', lambda: st.one_of(s_cyclic(['torch'], True), s_transpose(['torch'], True), s_flip(['torch'], True)),
        lambda c: (b_cyclic if 's' in c else b_flip if 'axes' in c else b_transpose)(c), 250, 4000, shards=1, rank=2),
    Sub('tf_jax', lambda: st.one_of(s_reverse(['tensorflow', 'jax'], 40), s_cyclic(['tensorflow', 'jax'], True),
                                    s_transpose(['tensorflow', 'jax'], True)),
        lambda c: (b_cyclic if 's' in c else b_reverse if isinstance(c['cfg']['shape'], int) else b_transpose)(c),
        60, 2000, shards=2, rank=4),
]
