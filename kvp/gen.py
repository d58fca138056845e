"""Case generators (Hypothesis strategies over JSON-able dicts) and signal recipes."""
import math
import numpy as np
from hypothesis import strategies as st

KINDS = ['impulse', 'const', 'step', 'sine', 'noise', 'chirp', 'sparse', 'ramp', 'zero_mean', 'am', 'nyquist',
         'ends', 'offset']


def signal(rec, shape):
    """Deterministic float64 array of the given shape from a recipe."""
    rng = np.random.RandomState(rec['seed'] % (2 ** 31))
    shape = tuple(shape)
    n = shape[-1]
    t = np.arange(n) / max(n, 1)
    lead = shape[:-1]
    k = rec['kind']
    if k == 'noise':
        x = rng.randn(*shape)
    elif k == 'zero_mean':
        x = rng.randn(*shape)
        x = x - x.mean(axis=-1, keepdims=True)
    elif k == 'impulse':
        x = np.zeros(shape)
        flat = x.reshape(-1, n)
        for r in flat:
            r[rng.randint(n)] = rng.choice([-1.0, 1.0]) * (0.5 + rng.rand())
    elif k == 'sparse':
        x = rng.randn(*shape) * (rng.rand(*shape) < 0.15)
    elif k == 'const':
        x = np.ones(shape) * rng.uniform(0.5, 2, size=lead + (1,))
    elif k == 'step':
        x = np.where(t > rng.rand(*lead, 1), 1.0, -0.3) * np.ones(shape)
    elif k == 'ramp':
        x = t * rng.uniform(-2, 2, size=lead + (1,)) + rng.uniform(-1, 1, size=lead + (1,))
    elif k == 'sine':
        x = np.sin(2 * np.pi * rng.uniform(0, n / 2, size=lead + (1,)) * t
                   + rng.uniform(0, 6.28, size=lead + (1,)))
    elif k == 'chirp':
        x = np.cos(np.pi * rng.uniform(n / 8, n / 2, size=lead + (1,)) * t * t)
    elif k == 'am':
        x = ((1 + np.cos(2 * np.pi * rng.uniform(1, max(2, n / 16), size=lead + (1,)) * t))
             * np.cos(2 * np.pi * rng.uniform(n / 8, n / 2, size=lead + (1,)) * t))
    elif k == 'nyquist':
        x = (1 - 2.0 * (np.arange(n) % 2)) * (1 + 0.1 * rng.randn(*shape))
    elif k == 'ends':           # only the first and the last sample
        x = np.zeros(shape)
        x[..., 0] = rng.uniform(-1, 1, size=lead)
        x[..., -1] = rng.uniform(-1, 1, size=lead)
    elif k == 'offset':
        x = rng.randn(*shape) + rng.choice([-20.0, 20.0], size=lead + (1,))
    else:
        raise KeyError(k)
    return np.asarray(x * rec.get('amp', 1.0), dtype=np.float64)


def signals(kinds=None, amps=(1.0, 1.0, 1.0, 100.0, 0.01, 1e5, 1e-6)):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds or KINDS),
        seed=st.integers(0, 10 ** 6),
        amp=st.sampled_from(list(amps))))


def batches(multi=True):
    opts = [[], [1], [2], [3]]
    if multi:
        opts += [[2, 2], [1, 3], [2, 1, 2], [5], [2, 3], [1, 1, 2, 1]]
    return st.sampled_from(opts)


@st.composite
def Qs(draw, max1=8, max2=2):
    q1 = draw(st.integers(1, max1))
    form = draw(st.sampled_from(['int', 'int', 'pair', '1tuple']))
    if form == 'int':
        return q1
    if form == '1tuple':
        return [q1]
    # Q2 >= 3 with Q1 <= 2 is rejected by the library (second-order aliasing check)
    return [q1, draw(st.integers(1, max2 if q1 >= 3 else min(2, max2)))]


def as_Q(q):
    return tuple(q) if isinstance(q, list) else q


@st.composite
def cfg1d(draw, nmax=257, modes=('default', 'local', 'global', 'zero'), stride=True,
          max_q=8, max_q2=3, jmax=7, orders=(1, 2, 2, 2), cost=40000):
    """Configuration of Scattering1D inside its documented domain."""
    N = draw(st.one_of(st.integers(2, min(nmax, 40)), st.integers(2, nmax),
                       st.sampled_from([v for v in (8, 16, 31, 32, 33, 64, 100, 127, 128, 256)
                                        if v <= nmax])))
    jtop = min(jmax, int(math.floor(math.log2(N))))
    J = draw(st.integers(1, jtop))
    Q = draw(Qs(max_q, max_q2))
    mode = draw(st.sampled_from(list(modes)))
    c = dict(J=J, shape=N, Q=Q, max_order=draw(st.sampled_from(list(orders))))
    if mode == 'local':
        c['T'] = draw(st.one_of(
            st.integers(1, N), st.integers(0, int(math.log2(N))).map(lambda k: 2 ** k),
            st.integers(4, 4 * N).map(lambda v: v / 4)))
    elif mode == 'global':
        c['T'] = 'global'
    elif mode == 'zero':
        c['T'] = 0
    if stride and mode in ('default', 'local') and draw(st.booleans()):
        T = c.get('T', 2 ** J)
        c['stride'] = 2 ** draw(st.integers(0, int(math.floor(math.log2(T)))))
    return c


@st.composite
def cfg1d_large(draw, modes=('default', 'local', 'global', 'zero'), nmax=16384, stride=True):
    """Sizes of practical use: up to 2^13 samples, J up to log2 N, Q up to 24."""
    N = draw(st.one_of(st.sampled_from([512, 1000, 1024, 2048, 4096, 8192, 16384]), st.integers(300, 4100)).filter(lambda n: n <= nmax))
    J = draw(st.integers(4, int(math.floor(math.log2(N)))))
    order = draw(st.sampled_from([1, 2, 2]))
    Q1 = draw(st.sampled_from([1, 1, 2, 3, 4, 8, 10, 12, 16, 24]))
    Q2 = draw(st.sampled_from([1, 1, 2, 3])) if Q1 >= 3 else draw(st.sampled_from([1, 2]))
    while order == 2 and Q1 > 1 and Q1 * Q2 * J * J * N > 20000000:     # paths x samples
        if Q2 > 1:
            Q2 -= 1
        else:
            Q1 -= 1
    if Q1 < 3:
        Q2 = min(Q2, 2)
    mode = draw(st.sampled_from(list(modes)))
    if mode == 'zero' and order == 2:
        N = min(N, 1024)
        J = min(J, int(math.floor(math.log2(N))))
    c = dict(J=J, shape=N, Q=[Q1, Q2], max_order=order)
    if mode == 'local':
        c['T'] = draw(st.one_of(st.integers(1, N), st.sampled_from([1, 2, 2 ** J, N])))
    elif mode == 'global':
        c['T'] = 'global'
    elif mode == 'zero':
        c['T'] = 0
    if stride and mode in ('default', 'local') and draw(st.booleans()):
        lt = int(math.floor(math.log2(c.get('T', 2 ** J))))
        c['stride'] = 2 ** draw(st.integers(max(0, lt - 4), lt))
    return c


def kw1d(c):
    kw = dict(c)
    kw['Q'] = as_Q(kw['Q'])
    return kw


@st.composite
def cfg_jtfs(draw, nmax=160, modes=('default', 'local', 'global', 'zero'),
             modes_fr=('default', 'local', 'global', 'zero'), formats=('time', 'joint'),
             jmax=6, array=False, max_q=6):
    N = draw(st.one_of(st.sampled_from([16, 32, 64, 128]), st.integers(8, nmax)))
    J = draw(st.integers(2, min(jmax, int(math.floor(math.log2(N))))))
    Q = draw(Qs(max_q, 2))
    Q1 = Q[0] if isinstance(Q, list) else Q
    J_fr = draw(st.integers(1, 4))
    c = dict(J=J, J_fr=J_fr, Q=Q, shape=N)
    c['format'] = draw(st.sampled_from(list(formats)))
    mode = draw(st.sampled_from(list(modes)))
    if mode == 'local':
        c['T'] = draw(st.one_of(st.integers(1, N), st.integers(0, int(math.log2(N))).map(lambda k: 2 ** k)))
    elif mode == 'global':
        c['T'] = 'global'
    elif mode == 'zero':
        c['T'] = 0
    if mode in ('default', 'local') and draw(st.integers(0, 3)) == 0:
        c['stride'] = 2 ** draw(st.integers(0, int(math.floor(math.log2(c.get('T', 2 ** J))))))
    mode_fr = draw(st.sampled_from(list(modes_fr)))
    n_in = (J + 1) * Q1
    if mode_fr == 'local':
        c['F'] = draw(st.integers(1, n_in))
    elif mode_fr == 'global':
        c['F'] = 'global'
    elif mode_fr == 'zero':
        c['F'] = 0
    if mode_fr in ('default', 'local') and draw(st.integers(0, 2)) == 0:
        c['stride_fr'] = 2 ** draw(st.integers(0, int(math.floor(math.log2(c.get('F', 2 ** J_fr))))))
    if draw(st.booleans()):
        c['Q_fr'] = draw(st.integers(1, 3))
    return c


@st.composite
def cfg_jtfs_large(draw, formats=('time', 'joint')):
    N = draw(st.sampled_from([256, 300, 512, 777, 1024, 2048]))
    J = draw(st.integers(4, min(9, int(math.floor(math.log2(N))))))
    Q1 = draw(st.sampled_from([1, 2, 3, 5, 8, 12]))
    while Q1 > 1 and Q1 * J * J * N > 250000:
        Q1 -= 1
    Q2 = draw(st.sampled_from([1, 1, 2]))
    c = dict(J=J, J_fr=draw(st.integers(1, 5)), Q=[Q1, Q2], shape=N, format=draw(st.sampled_from(list(formats))))
    mode = draw(st.sampled_from(['default', 'local', 'global']))
    if mode != 'default':
        c['T'] = 'global' if mode == 'global' else draw(st.one_of(st.integers(1, N), st.sampled_from([1, N])))
    mode = draw(st.sampled_from(['default', 'local', 'global', 'zero']))
    if mode == 'local':
        c['F'] = draw(st.integers(1, (J + 1) * Q1))
    elif mode != 'default':
        c['F'] = {'global': 'global', 'zero': 0}[mode]
    if draw(st.booleans()):
        c['Q_fr'] = draw(st.integers(1, 4))
    return c


@st.composite
def cfg2d_large(draw, pre_pad=False):
    J = draw(st.integers(2, 6))
    lo = 2 ** J
    M, N = [draw(st.one_of(st.integers(lo, max(lo, 130)), st.just(lo), st.sampled_from([64, 128]).filter(lambda v, lo=lo: v >= lo)))
            for _ in range(2)]
    L = draw(st.sampled_from([1, 2, 4, 8, 12, 16, 24]))
    order = draw(st.sampled_from([1, 2]))
    while order == 2 and L > 1 and L * L * J * (J - 1) // 2 * (M + lo) * (N + lo) > 500000:
        L -= 1
    c = dict(J=J, shape=[M, N], L=L, max_order=order)
    if pre_pad:
        c['pre_pad'] = draw(st.booleans())
    return c


@st.composite
def cfg3d_large(draw):
    L = draw(st.integers(0, 7))
    J = draw(st.integers(0, 3))
    hi = 8 if L * J > 6 else 14
    c = dict(J=J, shape=[draw(st.one_of(st.integers(4, hi), st.sampled_from([8, hi]))) for _ in range(3)], L=L,
             max_order=draw(st.sampled_from([1, 2])), sigma_0=draw(st.sampled_from([1, 0.8, 1.3, 2.5])),
             rotation_covariant=draw(st.sampled_from([True, True, False])))
    if draw(st.booleans()):
        c['integral_powers'] = draw(st.lists(st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0]), min_size=1, max_size=6))
    return c


@st.composite
def cfg2d(draw, nmax=40, jmax=4, lmax=8, pre_pad=False, cost=60):
    J = draw(st.integers(1, jmax))
    lo = 2 ** J
    M = draw(st.one_of(st.integers(lo, max(lo, nmax)), st.just(lo)))
    N = draw(st.one_of(st.integers(lo, max(lo, nmax)), st.just(lo), st.just(M)))
    # bound the number of paths so that a case stays cheap
    L = draw(st.integers(1, lmax))
    order = draw(st.sampled_from([1, 2, 2]))
    while order == 2 and L > 1 and L * L * J * (J - 1) // 2 > cost:
        L -= 1
    c = dict(J=J, shape=[M, N], L=L, max_order=order)
    if pre_pad:
        c['pre_pad'] = draw(st.booleans())
    return c


def kw2d(c):
    kw = dict(c)
    kw['shape'] = tuple(kw['shape'])
    return kw


@st.composite
def cfg3d(draw, dims=(4, 5, 6, 7, 8, 9), jmax=2, lmax=3, orders=(1, 2, 2)):
    c = dict(J=draw(st.integers(0, jmax)), shape=[draw(st.sampled_from(list(dims))) for _ in range(3)],
             L=draw(st.integers(0, lmax)), max_order=draw(st.sampled_from(list(orders))),
             sigma_0=draw(st.sampled_from([1, 0.7, 1.5, 2.0])),
             rotation_covariant=draw(st.sampled_from([True, True, False])))
    if draw(st.booleans()):
        c['integral_powers'] = draw(st.lists(
            st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.0]), min_size=1, max_size=4))
    return c


def kw3d(c):
    kw = dict(c)
    kw['shape'] = tuple(kw['shape'])
    if 'integral_powers' in kw:
        kw['integral_powers'] = tuple(kw['integral_powers'])
    return kw


def image(rec, shape):
    """Deterministic array with d >= 2 structured trailing axes."""
    rng = np.random.RandomState(rec['seed'] % (2 ** 31))
    shape = tuple(shape)
    k = rec['kind']
    if k == 'noise':
        x = rng.randn(*shape)
    elif k == 'pos':
        x = rng.rand(*shape) + 0.1
    elif k == 'impulse':
        x = np.zeros(shape)
        d = rec.get('d', 2)
        flat = x.reshape((-1, int(np.prod(shape[-d:]))))
        for r in flat:
            r[rng.randint(r.size)] = rng.choice([-1., 1.]) * (0.5 + rng.rand())
    elif k == 'const':
        x = np.ones(shape) * rng.uniform(0.5, 2)
    elif k == 'sparse':
        x = rng.randn(*shape) * (rng.rand(*shape) < 0.1)
    elif k == 'wave':
        x = np.zeros(shape)
        ph = 0.0
        for ax in range(-rec.get('d', 2), 0):
            n = shape[ax]
            w = rng.uniform(0, np.pi)
            v = np.arange(n) * w
            ph = ph + v.reshape((n,) + (1,) * (-ax - 1))
        x = x + np.cos(ph + rng.rand())
    elif k == 'edge':
        x = np.zeros(shape)
        n = shape[-1]
        x[..., n // 2:] = 1.0
        x = x + 0.1 * rng.randn(*shape)
    elif k == 'corner':
        x = np.zeros(shape)
        d = rec.get('d', 2)
        for i in range(2 ** d):
            x[(Ellipsis,) + tuple(-((i >> b) & 1) for b in range(d))] += rng.uniform(-1, 1, size=shape[:-d])
    elif k == 'checker':
        d = rec.get('d', 2)
        x = 1 - 2.0 * (np.indices(shape[-d:]).sum(axis=0) % 2) + 0.1 * rng.randn(*shape)
    elif k == 'row':            # varies along one axis only
        ax = -1 - rng.randint(rec.get('d', 2))
        x = np.zeros(shape) + rng.randn(shape[ax]).reshape((-1,) + (1,) * (-ax - 1))
    else:
        raise KeyError(k)
    return np.asarray(x * rec.get('amp', 1.0), dtype=np.float64)


IKINDS = ['impulse', 'const', 'noise', 'sparse', 'wave', 'edge', 'pos', 'corner', 'checker', 'row']


def images(d=2, kinds=None, amps=(1.0, 1.0, 50.0, 0.02, 1e4, 1e-5)):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds or IKINDS), seed=st.integers(0, 10 ** 6),
        amp=st.sampled_from(list(amps)), d=st.just(d)))
