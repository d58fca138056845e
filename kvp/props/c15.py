"""C15: batch elements are independent."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from .c14 import case, flatten, setup

RULE = ('Generated configurations and a batch whose elements have different recipes and amplitudes (1e-3 to 1e3, zero, '
        'sometimes NaN or infinite); every element of the batch output is compared with the output for that element alone, '
        'relative to that element, and with the same batch permuted or reshaped. Non-trivial: at least two elements of '
        'different content.')
ASSUMPTIONS = ['float32 rounding may depend on the batch: 2e-5 of the largest coefficient of the element']


@st.composite
def strat(draw, fes, small=False):
    c = draw(case(fes, small))
    c['batch'] = draw(st.sampled_from([[1], [2], [3], [5], [2, 2], [1, 3], [3, 1], [2, 1, 2], [1, 1, 1, 2]]))
    if draw(st.integers(0, 7)) == 0 and not small:      # many elements of a small transform
        c = draw(case(fes, True))
        c['batch'] = draw(st.sampled_from([[9], [16], [17], [33], [3, 11], [40], [65], [2, 5, 5], [129]]))
        if c['tr'] == 'jtfs' or c['tr'] == '2d':
            c['batch'] = c['batch'][:1]
    n = int(np.prod(c['batch']))
    kinds = ['noise', 'impulse', 'const', 'sparse']
    c['elems'] = [dict(kind=draw(st.sampled_from(kinds)), seed=draw(st.integers(0, 999)),
                       amp=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 0.0]))) for _ in range(n)]
    c['bad'] = draw(st.sampled_from([None, None, 'nan', 'inf'])) if n > 1 else None
    c['badpos'] = draw(st.integers(0, n - 1))
    c['perm'] = draw(st.permutations(list(range(n))))
    c['ind'] = draw(st.integers(0, n - 1))
    return c


def body(c):
    f, tr, batch = c['fe'], c['tr'], tuple(c['batch'])
    kw, x0 = setup(c)
    sig = x0.shape[len(batch):]
    mk = gen.signal if tr in ('1d', 'jtfs') else gen.image
    X = np.stack([mk(dict(e, d=len(sig)), sig) for e in c['elems']]).astype(np.float32).astype(np.float64)
    if c['bad']:
        X[c['badpos']].reshape(-1)[0] = {'nan': np.nan, 'inf': np.inf}[c['bad']]
    S = fe.make(f, tr, **kw)
    run = lambda v: [(k, fe.to_np(u)) for k, u in flatten(call(S, fe.to_fw(f, v)))]
    y = run(X.reshape(batch + sig))
    perm = list(c['perm'])
    yp = run(np.ascontiguousarray(X[perm]))
    i = c['ind']
    y1 = run(X[i])
    ys = run(X[i:i + 1])
    need([k for k, _ in y] == [k for k, _ in y1] == [k for k, _ in yp], 'paths depend on the batch')
    n = len(X)
    for j, (k, v) in enumerate(y):
        rest = y1[j][1].shape
        need(v.shape == batch + rest, 'path %s: batch of shape %s gives output %s, one element %s', k, batch, v.shape, rest)
        need(ys[j][1].shape == (1,) + rest, 'path %s: singleton batch gives %s instead of %s', k, ys[j][1].shape, (1,) + rest)
        need(yp[j][1].shape == (n,) + rest, 'path %s: flat batch gives %s', k, yp[j][1].shape)
    V = [v.reshape((n,) + y1[j][1].shape) for j, (k, v) in enumerate(y)]
    scale = [max([float(np.nanmax(np.abs(v[e]))) if v[e].size and not np.all(np.isnan(v[e])) else 0.0 for v in V])
             for e in range(n)]
    tol = 1e-11 if f == 'numpy' and tr in ('1d', 'jtfs') else 3e-5
    for e in range(n):
        good = not (c['bad'] and e == c['badpos'])
        for j, (k, v) in enumerate(y):
            a = V[j][e]
            b = yp[j][1][perm.index(e)]
            if good:
                fe.close(b, a, tol, 'path %s of element %d: permuted batch' % (k, e), max(scale[e], 1e-30))
                if e == i:
                    for o, w in (('alone', y1[j][1]), ('in a singleton batch', ys[j][1][0])):
                        fe.close(a, w, tol, 'path %s of element %d in the batch vs %s' % (k, e, o), max(scale[e], 1e-30))
                if c['elems'][e]['amp'] == 0:
                    need(not a.any(), 'path %s of a zero element is not zero', k)
    return n > 1 and len({(e['kind'], e['seed'], e['amp']) for e in c['elems']}) > 1


def S_(fes, small=False):
    return lambda: strat(fes, small)


SUBS = [
    Sub('numpy', S_(['numpy']), body, 500, 10000, shards=2, rank=1),
    Sub('torch', S_(['torch']), body, 400, 9000, shards=3, rank=2),
    Sub('tensorflow', S_(['tensorflow'], True), body, 100, 2500, shards=2, rank=3),
    Sub('jax', S_(['jax'], True), body, 30, 900, shards=1, rank=4),
]
