"""C12: joint time-frequency scattering values."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import cmp, fe, gen, ref1d
from ..harness import Sub, call, need
from ..ref1d import RefJTFS

RULE = ('Generated TimeFrequencyScattering configurations (J, J_fr, Q, Q_fr, T and F in every mode, stride, stride_fr, '
        'format, out_type, frontend, batch) x signals; every coefficient is compared with an independent float64 model. '
        'Non-trivial: at least one second-order coefficient away from zero.')
ASSUMPTIONS = ['paths whose frequential filter falls between the bins of the padded frequency axis (values before '
               'normalization below 1e-5: pure rounding) are compared in shape only',
               "format='joint' with out_type='array' is taken with F local and a frequential stride <= 2**J_fr (otherwise see "
               'the known findings of C13)']


def model(cfg, out):
    return RefJTFS(cfg['J'], cfg['J_fr'], cfg['Q'], cfg['shape'], cfg.get('T'), cfg.get('stride'),
                   cfg.get('Q_fr', 1), cfg.get('F'), cfg.get('stride_fr'), out, cfg['format'])


def array_ok(cfg):
    """False where arrays are rejected by design, or where stacking joint maps fails (known finding of C13)"""
    F = cfg.get('F')
    if cfg.get('T') == 0:
        return False
    if cfg['format'] == 'time':
        return True
    if F in (0, 'global'):
        return False
    s = cfg.get('stride_fr') or 2 ** int(math.floor(math.log2(2 ** cfg['J_fr'] if F is None else F)))
    return s <= 2 ** cfg['J_fr']


def strategy(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg_jtfs(**kw), batch=gen.batches(), x=gen.signals(),
        out=st.sampled_from(['array', 'list', 'dict'])))


def body(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    out = c['out'] if (c['out'] != 'array' or array_ok(cfg)) else 'list'
    x = gen.signal(c['x'], tuple(c['batch']) + (cfg['shape'],)).astype(np.float32).astype(np.float64)
    S = fe.make(f, 'jtfs', out_type=out, **cfg)
    y = fe.run(f, S, x)
    R = model(cfg, out)
    ref = R.paths_out(x)
    keys = [k for k, _, _ in ref]
    vals = [v.reshape(tuple(c['batch']) + v.shape[1:]) for _, v, _ in ref]
    if out == 'array':
        ax = -2 if cfg['format'] == 'time' else -3
        need(y.ndim == len(c['batch']) + (2 if cfg['format'] == 'time' else 3), 'output of rank %d', y.ndim)
        got = cmp.split_array(y, ax, len(keys))
    elif out == 'dict':
        need(set(y) == set(keys), 'dict keys: %d paths, expected %d (difference %s)', len(y), len(keys),
             sorted(set(y) ^ set(keys))[:4])
        got = [y[k] for k in keys]
    else:
        need([p['n'] for p in y] == keys, 'list output has paths %s..., expected %s...',
             [p['n'] for p in y][:5], keys[:5])
        got = [p['coef'] for p in y]
    bad = [ref1d.ill_conditioned(R.N_fr, p['xi'], p['sigma']) for p in R.fr]
    order = {k: (0 if not k else p['order']) for k, _, p in ref}
    ok, sizes = [], 1
    for k, g, r, (_, _, p) in zip(keys, got, vals, ref):
        need(g.shape == r.shape, 'path %s has shape %s, expected %s', k, g.shape, r.shape)
        if p.get('n_fr') is None or not bad[p['n_fr']]:
            ok.append((k, g, r))
    gain = {'global': float(R.g.Np)}.get(cfg.get('T'), 1.0) * (len(R.bank[0]) if cfg.get('F') == 'global' else 1.0)
    cmp.by_order([a[0] for a in ok], [a[1] for a in ok], [a[2] for a in ok], x, f, 'JTFS', gain=gain,
                 order_of=lambda k: order[k])
    m2 = max([float(np.abs(r).max()) for k, g, r in ok if order[k] == 2] or [0.0])
    return m2 > 1e-7 * max(float(np.abs(x).max()), 1e-30)


def large():
    return st.fixed_dictionaries(dict(
        fe=st.sampled_from(['numpy', 'torch']), cfg=gen.cfg_jtfs_large(), batch=st.just([]), x=gen.signals(),
        out=st.sampled_from(['array', 'list', 'dict'])))


SUBS = [
    Sub('large', large, body, 60, 1500, shards=2, rank=4),
    Sub('numpy', strategy(['numpy']), body, 1100, 20000, shards=3, rank=1),
    Sub('torch', strategy(['torch'], nmax=100, max_q=4), body, 300, 6000, shards=2, rank=2),
    Sub('tensorflow', strategy(['tensorflow'], nmax=48, max_q=2, jmax=4), body, 40, 1200, shards=1, rank=3),
    Sub('jax', strategy(['jax'], nmax=32, max_q=1, jmax=3), body, 12, 400, shards=1, rank=3),
]
