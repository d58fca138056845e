"""C26: 3D synthetic densities equal sums of Gaussians."""
import math
import numpy as np
from hypothesis import strategies as st
from ..harness import Sub, call, need

RULE = ('Generated grids (integer or float spacing, shifted, anisotropic sizes 1..8, any axis order of the origin), batches '
        'of 1-3 elements with 1-6 Gaussians, weights with negative values and zeros anywhere, widths 0.3..5; the result is '
        'compared with the closed form (per point, math.fsum), and in addition metamorphic relations: common shift of grid '
        'and positions, weights scaled, elements of the batch separately, permutation of the Gaussians before the first zero, '
        'integral over a grid that contains the support. Non-trivial: at least two Gaussians with non-zero weight.')
ASSUMPTIONS = ['tolerance 1e-12 of the largest term']


@st.composite
def case(draw):
    c = dict(shape=[draw(st.integers(1, 8)) for _ in range(3)], B=draw(st.integers(1, 3)), G=draw(st.integers(1, 6)),
             seed=draw(st.integers(0, 10 ** 6)), sigma=draw(st.sampled_from([0.3, 0.5, 1.0, 1.0, 1.5, 2.3, 5.0, 2])),
             grid=draw(st.sampled_from(['mgrid', 'ifft', 'float', 'shift', 'float32'])), big=draw(st.integers(0, 19)) == 0,
             spread=draw(st.sampled_from([0.5, 1.0, 3.0])))
    c['zeros'] = [[draw(st.integers(0, 5)) == 0 for _ in range(c['G'])] for _ in range(c['B'])]
    c['wt'] = draw(st.sampled_from(['pos', 'sign', 'int', 'charge']))
    return c


def make(c):
    M, N, O = c['shape']
    rng = np.random.RandomState(c['seed'])
    g = np.mgrid[0:M, 0:N, 0:O].astype(float)
    if c['grid'] == 'mgrid':
        g = np.mgrid[0:M, 0:N, 0:O]
    elif c['grid'] == 'ifft':
        g = np.mgrid[-M // 2:-M // 2 + M, -N // 2:-N // 2 + N, -O // 2:-O // 2 + O]
        g = np.fft.ifftshift(g, axes=(1, 2, 3))
    elif c['grid'] == 'float':
        g = g * rng.uniform(0.3, 1.5, size=(3, 1, 1, 1))
    elif c['grid'] == 'shift':
        g = g + rng.uniform(-5, 5, size=(3, 1, 1, 1))
    elif c['grid'] == 'float32':
        g = g.astype(np.float32)
    lo = g.reshape(3, -1).min(1).astype(float)
    hi = g.reshape(3, -1).max(1).astype(float)
    p = lo + (hi - lo) * rng.rand(c['B'], c['G'], 3) + c['spread'] * rng.randn(c['B'], c['G'], 3) * 0.3
    if rng.rand() < 0.3:
        p = np.rint(p)
    w = rng.rand(c['B'], c['G']) + 0.1
    if c['wt'] == 'sign':
        w = w * rng.choice([-1., 1.], size=w.shape)
    elif c['wt'] == 'int':
        w = rng.randint(1, 9, size=w.shape)
    elif c['wt'] == 'charge':
        w = rng.choice([1., 6., 7., 8., 16.], size=w.shape)
    w = w * (~np.array(c['zeros'])).astype(w.dtype)
    return g, p, w


def active(w):
    z = np.flatnonzero(w == 0)
    return len(w) if not len(z) else int(z[0])


def closed(g, p, w, sigma):
    out = np.zeros((p.shape[0],) + g.shape[1:])
    g = g.astype(float)
    for b in range(p.shape[0]):
        n = active(w[b])
        if not n:
            continue
        d2 = ((g[:, None] - p[b, :n].T[:, :, None, None, None]) ** 2).sum(0)
        t = w[b, :n, None, None, None] * np.exp(-d2 / (2.0 * sigma * sigma))
        out[b] = np.array([math.fsum(v) for v in t.reshape(n, -1).T]).reshape(g.shape[1:])
    return out / (math.sqrt(2 * math.pi) * sigma) ** 3


def body(c):
    from kymatio.scattering3d.utils import generate_weighted_sum_of_gaussians as gen_
    g, p, w = make(c)
    s = c['sigma']
    top = np.abs(w).max() if w.size else 1
    unit = 1.0 / (math.sqrt(2 * math.pi) * s) ** 3
    tol = (1e-12 if g.dtype != np.float32 else 1e-5) * unit * max(float(top), 1.0) * c['G']

    def f(g, p, w, s=s):
        k = [g.copy(), p.copy(), w.copy()]
        y = call(gen_, g, p, w, s)
        need(all(np.array_equal(a, b) for a, b in zip(k, (g, p, w))), 'an argument was modified')
        need(isinstance(y, np.ndarray) and y.dtype == np.float64 and y.shape == (p.shape[0],) + g.shape[1:],
             'result %s %s', type(y).__name__, getattr(y, 'shape', None))
        return y

    def same(a, b, what, t=tol):
        d = float(np.abs(a - b).max())
        need(np.all(np.isfinite(a)) and d <= t, '%s: deviation %.2e (tolerance %.1e)', what, d, t)

    y = f(g, p, w)
    same(y, closed(g, p, w, s), 'sum of Gaussians')
    sh = np.array([0.75, -1.5, 2.25])
    same(f(g + sh.astype(g.dtype if g.dtype.kind == 'f' else float)[:, None, None, None], p + sh, w), y,
         'common translation', tol * 10)
    same(f(g, p, -3 * w), -3 * y, 'scaled weights', 10 * tol)
    for b in range(p.shape[0]):
        same(f(g, p[b:b + 1], w[b:b + 1])[0], y[b], 'batch element %d alone' % b)
        n = active(w[b])
        order = np.r_[np.arange(n)[::-1], np.arange(n, w.shape[1])].astype(int)
        same(f(g, p[b:b + 1, order], w[b:b + 1, order])[0], y[b], 'reordered Gaussians')
        if n:
            same(sum(f(g, p[b:b + 1, i:i + 1], w[b:b + 1, i:i + 1])[0] for i in range(n)), y[b], 'sum of single Gaussians')
    if c['big'] and s >= 0.7 and s <= 2.3:
        r = int(np.ceil(7 * s)) + 2
        G = np.mgrid[-r:r + 1, -r:r + 1, -r:r + 1].astype(float)
        q = np.random.RandomState(c['seed']).uniform(-1, 1, size=p.shape)
        tot = f(G, q, w).sum(axis=(1, 2, 3))
        want = np.array([w[b, :active(w[b])].sum() for b in range(len(w))])
        # the sum over the unit grid of a Gaussian of width >= 0.7 is its integral up to 2 * 3 * exp(-2 pi^2 s^2)
        need(bool(np.all(np.abs(tot - want) <= (1e-6 + 12 * math.exp(-2 * math.pi ** 2 * s * s)) * np.abs(w).sum(1))),
             'integral %s, total weight %s', tot, want)
    return max(active(v) for v in w) > 1


SUBS = [Sub('closed_form', case, body, 3000, 60000, shards=4)]
