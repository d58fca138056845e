"""C04: metadata of Scattering1D."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from ..ref1d import Ref1D

RULE = ('Generated Scattering1D configurations in every averaging mode, stride, max_order and frontend; meta() and '
        'output_size() are compared with the paths and filters of the reference model and, channel by channel, with the '
        'list and dict outputs of the same object; output before and after metadata queries must be identical. '
        'Non-trivial: at least 4 paths.')
ASSUMPTIONS = []


def strategy(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg1d(**kw), batch=gen.batches(), x=gen.signals(),
        queries=st.lists(st.sampled_from(['meta', 'size', 'detail']), min_size=1, max_size=4)))


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) < 1e-10) | (np.isnan(a) & np.isnan(b))))


def body(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    ref = Ref1D(cfg['J'], cfg['shape'], cfg['Q'], cfg.get('T'), cfg.get('stride'), cfg['max_order'])
    keys = ref.paths()
    S = fe.make(f, '1d', out_type='list', **cfg)
    x = gen.signal(c['x'], tuple(c['batch']) + (cfg['shape'],))
    before = fe.run(f, S, x) if c['batch'] != [3] else None
    m = None
    for q in c['queries'] + ['meta']:
        if q == 'meta':
            m = call(S.meta)
        elif q == 'size':
            n = call(S.output_size)
            need(n == len(keys), 'output_size() = %r, expected %d', n, len(keys))
        else:
            n = call(S.output_size, detail=True)
            exp = tuple(v for v in (sum(len(k) == o for k in keys) for o in range(3)) if v)
            need(tuple(n) == exp, 'output_size(detail=True) = %r, expected %r', n, exp)
    order = cfg['max_order']
    need([tuple(k) for k in m['key']] == keys, 'meta()["key"] is %s, expected %s', m['key'][:6], keys[:6])
    need(list(m['order']) == [len(k) for k in keys], 'meta()["order"]')
    pad = lambda v: list(v) + [np.nan] * (order - len(v))
    need(same(m['n'], [pad(k) for k in keys]), 'meta()["n"] does not list the filter indices')
    for name in ('xi', 'sigma', 'j'):
        need(same(m[name], [pad([ref.bank[o][n][name] for o, n in enumerate(k)]) for k in keys]),
             'meta()["%s"] does not match the filters of the paths', name)
    y = fe.run(f, S, x)
    need([p['n'] for p in y] == keys, 'list output paths are %s, meta lists %s', [p['n'] for p in y][:6], keys[:6])
    for p, k in zip(y, keys):
        need(p['order'] == len(k), 'list output order of %s is %r', k, p['order'])
        need(tuple(p['j']) == tuple(ref.bank[o][n]['j'] for o, n in enumerate(k)),
             'list output j of %s is %r', k, p['j'])
    if before is not None:
        for p, q in zip(before, y):
            need(np.array_equal(p['coef'], q['coef']), 'metadata queries changed the output of path %s', p['n'])
    S.out_type = 'dict'
    d = fe.run(f, S, x)
    need(set(d) == set(keys), 'dict keys differ from meta keys')
    m2 = call(S.meta)
    need([tuple(k) for k in m2['key']] == keys, 'meta keys depend on out_type')
    if cfg.get('T') != 0:
        S.out_type = 'array'
        a = fe.run(f, S, x)
        need(a.shape[-2] == len(keys), 'array output has %d channels, meta %d', a.shape[-2], len(keys))
        need(call(S.output_size) == a.shape[-2], 'output_size differs from the number of channels')
        for i, k in enumerate(keys):
            need(np.allclose(a[..., i, :], d[k], rtol=0, atol=1e-5 * max(np.abs(d[k]).max(), 1e-30)),
                 'channel %d is not the coefficient of path %s listed there by meta()', i, k)
    return len(keys) >= 4


def large():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'numpy', 'torch']), cfg=gen.cfg1d_large(), batch=st.just([]), x=gen.signals(),
        queries=st.lists(st.sampled_from(['meta', 'size', 'detail']), min_size=1, max_size=3)))


SUBS = [
    Sub('large', large, body, 100, 2500, shards=1, rank=3),
    Sub('numpy', strategy(['numpy'], max_q2=4), body, 2000, 40000, shards=3),
    Sub('torch', strategy(['torch'], nmax=100), body, 250, 5000, shards=1, rank=2),
    Sub('tensorflow', strategy(['tensorflow'], nmax=70, max_q=4), body, 60, 1500, shards=1, rank=3),
    Sub('jax', strategy(['jax'], nmax=40, max_q=3, jmax=4), body, 25, 600, shards=1, rank=3),
]
