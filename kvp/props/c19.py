"""C19: homogeneity, sign- and mean-blindness, nonnegativity, nonexpansiveness."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen, ref1d
from ..harness import Sub, call, need
from .c12 import array_ok
from .c14 import case, flatten

RULE = ('Generated 1-D, 2-D and joint configurations in every averaging mode and out_type, pairs of signals and scalars: '
        'S(c x) against c S0 and |c| S, S0(a x + b y) against a S0(x) + b S0(y), S(x + c) against S(x) (order 0: + c times '
        'the sum of the averaging window), nonnegativity above order 0, and in 1-D sup-norm nonexpansiveness under local '
        'averaging. Non-trivial: a non-constant signal and a first-order coefficient away from zero.')
ASSUMPTIONS = ['float tolerances: 1e-9 (NumPy) or 3e-5 (others) of the largest coefficient of the order, with a floor on the '
               'input amplitude (2-D filters are float32)', '2-D coefficients may undershoot zero by the Gibbs effect of the '
               'band-limited low-pass: 1 % of the amplitude', 'joint paths whose frequential filter falls between bins are '
               'skipped for mean-blindness']

AMPS = [-1.0, 2.0, -0.5, 3.7, -1e3, 1e-3, 1e-6, 1e5, 0.0]


@st.composite
def strat(draw, fes, small):
    c = draw(case(fes, small).filter(lambda c: c['tr'] != '3d'))
    c['y'] = draw(gen.signals() if c['tr'] in ('1d', 'jtfs') else gen.images(d=2))
    c['c'] = draw(st.sampled_from(AMPS))
    c['a'] = draw(st.sampled_from([1.0, -2.0, 0.3]))
    c['near'] = draw(st.sampled_from([1.0, 1e-2, 1e-4]))
    return c


def body(c):
    f, tr = c['fe'], c['tr']
    mk = gen.signal if tr != '2d' else gen.image
    kw = gen.kw1d(c['cfg']) if tr != '2d' else gen.kw2d(c['cfg'])
    shape = kw['shape'] if tr == '2d' else (kw['shape'],)
    if tr == '2d':
        kw['out_type'] = 'list' if c['out'] == 'list' else 'array'
        if kw['pre_pad']:
            k = 2 ** kw['J']
            shape = tuple(((n + k) // k + 1) * k for n in shape)
    else:
        kw['out_type'] = c['out'] if not (c['out'] == 'array' and (
            kw.get('T') == 0 or tr == 'jtfs' and not array_ok(kw))) else 'list'
    full = tuple(c['batch']) + shape
    rnd = (lambda v: v) if f == 'numpy' else (lambda v: v.astype(np.float32).astype(np.float64))
    x, y = rnd(mk(c['x'], full)), rnd(mk(c['y'], full))
    S = fe.make(f, tr, **kw)

    def run(v):
        out = call(S, fe.to_fw(f, v))
        ks = flatten(out)
        if ks[0][0] is not None:
            return {k: fe.to_np(w) for k, w in ks}
        w = fe.to_np(ks[0][1])
        ax = -3 if tr == '2d' or kw.get('format') == 'joint' else -2
        w = np.moveaxis(w, ax, 0)
        if tr == 'jtfs' and kw['format'] == 'joint':     # order 0 is not part of joint arrays
            return {(1, i): w[i] for i in range(len(w))}
        return {(): w[0], **{(i,): w[i] for i in range(1, len(w))}}

    amp = max(float(np.abs(x).max()), 1e-30)
    tol = 1e-9 if f == 'numpy' and tr != '2d' else 1e-6 if f == 'numpy' else 3e-5
    floor = {'1d': 1e-2, 'jtfs': 1e-2, '2d': 0.3}[tr]
    G = float(np.prod(shape)) if kw.get('T') == 'global' else 1.0   # sums instead of averages
    if tr == 'jtfs' and kw.get('F') == 'global':
        G *= 10
    X = run(x)

    def scales(P, a):
        s0 = max([float(np.abs(v).max()) for k, v in P.items() if not k and v.size] + [floor * a * G])
        s1 = max([float(np.abs(v).max()) for k, v in P.items() if k and v.size] + [floor * a * G])
        return s0, s1
    s0, s1 = scales(X, amp)
    # homogeneity
    k = c['c']
    Z = run(x * k)
    need(set(Z) == set(X), 'paths depend on the values of the input')
    for q in X:
        fac = k if not q else abs(k)
        fe.close(Z[q], X[q].astype(np.float64) * fac, tol, 'S(%g x), path %s' % (k, q), max((s1 if q else s0) * abs(k), 1e-30))
    # linearity of order 0
    if () in X:
        Y = run(y)
        ya = max(float(np.abs(y).max()), 1e-30)
        W = run(rnd(x + c['a'] * y))
        need(X[()].shape == W[()].shape, 'shape')
        fe.close(W[()], X[()].astype(np.float64) + c['a'] * Y[()], tol, 'order 0 of x + %g y' % c['a'],
                 s0 + abs(c['a']) * scales(Y, ya)[0])
    # mean-blindness
    off = amp * (1.5 if k >= 0 else -0.7)
    xo = rnd(x + off)
    O = run(xo)
    bad = set()
    if tr == 'jtfs':
        R = ref1d.RefJTFS(kw['J'], kw['J_fr'], kw['Q'], kw['shape'], kw.get('T'), kw.get('stride'), kw.get('Q_fr', 1),
                          kw.get('F'), kw.get('stride_fr'), kw['out_type'], kw['format'])
        illc = [ref1d.ill_conditioned(R.N_fr, p['xi'], p['sigma']) for p in R.fr]
        bad = {q for q in X if q and (any(illc) if kw['out_type'] == 'array' else illc[q[-1]])}
    dc = 1.0
    if tr != '2d' and kw.get('T') == 'global':
        R = ref1d.Ref1D(kw['J'], kw['shape'], kw['Q'], 'global')
        dc = R.g.Np
    # float32 inputs carry the offset with a relative rounding of their own
    mtol = 20 * tol if tr != '2d' else 60 * tol
    for q in X:
        if not q:
            fe.close(O[q], X[q].astype(np.float64) + off * dc, 2e-4 if tr == '2d' else 3 * tol, 'order 0 of x + %g' % off,
                     s0 + abs(off) * dc)
        elif q not in bad:
            fe.close(O[q], X[q].astype(np.float64), mtol, 'S(x + const), path %s' % (q,), s1 + amp * G)
    # nonnegativity
    for q in X:
        if q and X[q].size:
            lim = -(1e-2 if tr == '2d' else 3 * tol) * (s1 + amp * G)
            need(float(X[q].min()) >= lim, 'path %s has the negative coefficient %.3e', q, float(X[q].min()))
    # nonexpansiveness
    if tr == '1d' and kw.get('T') not in (0, 'global'):
        z = rnd(x + c['near'] * amp * y / max(float(np.abs(y).max()), 1e-30))
        dist = float(np.abs(z - x).max())
        N = run(z)
        for q in X:
            d = float(np.abs(N[q].astype(np.float64) - X[q]).max())
            need(d <= dist * (1 + 1e-6) + 3 * tol * amp, 'path %s moves by %.6g when the signal moves by %.6g', q, d, dist)
    return c['x']['kind'] != 'const' and s1 > floor * amp * G


def S_(fes, small=False):
    return lambda: strat(fes, small)


SUBS = [
    Sub('numpy', S_(['numpy']), body, 1500, 30000, shards=4, rank=1),
    Sub('torch', S_(['torch']), body, 350, 7000, shards=2, rank=2),
    Sub('tensorflow', S_(['tensorflow'], True), body, 70, 2000, shards=1, rank=3),
    Sub('jax', S_(['jax'], True), body, 24, 800, shards=1, rank=4),
]
