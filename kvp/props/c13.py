"""C13: metadata and formats of the joint time-frequency transform."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from .c12 import array_ok, model

RULE = ('Generated TimeFrequencyScattering configurations in every averaging mode, format and out_type: meta() row by row '
        'against the output of the same object and against the filters of the reference model; format "time" against '
        'the rows of format "joint". Non-trivial: second-order paths exist.')
ASSUMPTIONS = []
def _joint_array(c):
    return c['cfg']['format'] == 'joint' and c['out'] == 'array'


# input classes of the known findings (KNOWN_FINDINGS.json): the stack of joint maps fails
KNOWN = {
    'joint_array_global': lambda c: _joint_array(c) and c['cfg'].get('F') == 'global',
    'joint_array_wide_F': lambda c: _joint_array(c) and not array_ok(c['cfg']),
}


def strat(fes, **kw):
    return lambda: st.fixed_dictionaries(dict(
        fe=st.sampled_from(fes), cfg=gen.cfg_jtfs(**kw), batch=st.sampled_from([[], [2]]), x=gen.signals(),
        out=st.sampled_from(['array', 'list', 'dict'])))


def eqn(a, b):
    if b is None:
        return bool(np.isnan(a))
    return abs(float(a) - float(b)) < 1e-10


def body_meta(c):
    cfg, f, out = gen.kw1d(c['cfg']), c['fe'], c['out']
    fmt = cfg['format']
    if out == 'array' and (cfg.get('T') == 0 or (fmt == 'joint' and cfg.get('F') == 0)):
        out = 'list'
    S = fe.make(f, 'jtfs', out_type=out, **cfg)
    m = call(S.meta)
    x = gen.signal(c['x'], tuple(c['batch']) + (cfg['shape'],))
    y = fe.run(f, S, x)
    m2 = call(S.meta)
    need([tuple(k) for k in m['key']] == [tuple(k) for k in m2['key']], 'meta() changes after a transform')
    R = model(cfg, out)
    ref = R.paths_out(x[..., :].reshape(-1, cfg['shape'])[:1])
    keys = [k for k, _, _ in ref]
    mk = [tuple(k) for k in m['key']]
    need(len(set(mk)) == len(mk), 'meta keys are not unique')
    need(mk == keys, 'meta lists paths %s..., expected %s...', mk[:6], keys[:6])
    if out == 'list':
        need([tuple(p['n']) for p in y] == mk, 'list output paths differ from meta keys')
        need([p['order'] for p in y] == list(m['order']), 'orders of the list output differ from meta')
    elif out == 'dict':
        need(list(map(tuple, y)) == mk, 'dict output paths differ from meta keys')
    else:
        need(y.shape[-2 if fmt == 'time' else -3] == len(mk), 'array output has %s channels, meta %d', y.shape, len(mk))
    for name in ('n_fr', 'order', 'xi', 'sigma', 'j', 'xi_fr', 'sigma_fr', 'j_fr', 'spin', 'n'):
        need(len(m[name]) == len(mk), 'meta()["%s"] has %d rows, expected %d', name, len(m[name]), len(mk))
    second = 0
    for i, (k, _, p) in enumerate(ref):
        o = p['order']
        need(int(m['order'][i]) == o, 'meta order of %s is %r, expected %d', k, m['order'][i], o)
        if o == 0:
            for name in ('n_fr', 'xi_fr', 'sigma_fr', 'j_fr', 'spin'):
                need(bool(np.isnan(m[name][i])), 'meta()["%s"] of order 0 is %r', name, m[name][i])
            need(bool(np.all(np.isnan(m['xi'][i].astype(float)))), 'meta()["xi"] of order 0')
            continue
        second += o == 2
        q = R.fr[p['n_fr']]
        need(int(m['n_fr'][i]) == p['n_fr'], 'meta n_fr of %s', k)
        for name, v in (('xi_fr', q['xi']), ('sigma_fr', q['sigma']), ('j_fr', q['j']), ('spin', np.sign(q['xi']))):
            need(eqn(m[name][i], v), 'meta()["%s"] of path %s is %r, expected %r', name, k, m[name][i], v)
        w2 = R.bank[1][p['n2']] if p['n2'] is not None else None
        if fmt == 'time':
            w1 = R.bank[0][p['n1']]
            need(m['n'][i][0] == p['n1'], 'meta n1 of %s is %r', k, m['n'][i][0])
        else:
            w1 = None
            need(list(m['n'][i][0]) == list(range(0, p['n1_max'], p['n1_stride'])),
                 'meta n1 range of %s is %r, expected %s', k, m['n'][i][0], range(0, p['n1_max'], p['n1_stride']))
        if p['n2'] is None:
            need(bool(np.isnan(float(m['n'][i][1]))), 'meta n2 of first-order path %s', k)
        else:
            need(int(m['n'][i][1]) == p['n2'], 'meta n2 of %s is %r', k, m['n'][i][1])
        for name in ('xi', 'sigma', 'j'):
            for col, w in ((0, w1), (1, w2)):
                need(eqn(m[name][i][col], None if w is None else w[name]),
                     'meta()["%s"][%d] of path %s is %r, expected %r', name, col, k, m[name][i][col],
                     None if w is None else w[name])
    return second > 0


def body_formats(c):
    cfg, f = gen.kw1d(c['cfg']), c['fe']
    cfg.pop('format')
    x = gen.signal(c['x'], tuple(c['batch']) + (cfg['shape'],))
    out = 'dict' if c['out'] == 'array' else c['out']
    J = fe.run(f, fe.make(f, 'jtfs', out_type=out, format='joint', **cfg), x)
    t_out = 'array' if (c['out'] == 'array' and cfg.get('T') != 0) else out
    St = fe.make(f, 'jtfs', out_type=t_out, format='time', **cfg)
    T = fe.run(f, St, x)
    mt = [tuple(k) for k in call(St.meta)['key']]
    if t_out == 'array':
        T = {k: T[..., i, :] for i, k in enumerate(mt)}
    elif t_out == 'list':
        T = {p['n']: p['coef'] for p in T}
    if out == 'list':
        J = {p['n']: p['coef'] for p in J}
    need(set(T) == set(mt), "format='time' output differs from its meta keys")
    Sj = fe.make(f, 'jtfs', out_type=out, format='joint', **cfg)
    mj = call(Sj.meta)
    need(set(map(tuple, mj['key'])) == set(J), "format='joint' output differs from its meta keys")
    rng = {tuple(k): (list(n[0]) if len(k) else None) for k, n in zip(mj['key'], mj['n'])}
    seen = set()
    sc = max([float(np.abs(v).max()) for v in J.values()] + [1e-30])
    for k, v in J.items():
        if len(k) == 0:
            fe.close(T[()], v, 1e-6, 'order 0', sc)
            seen.add(())
            continue
        need(v.shape[-2] == len(rng[k]), 'joint path %s has %d rows, meta lists %d', k, v.shape[-2], len(rng[k]))
        for i, n1 in enumerate(rng[k]):
            need((n1,) + k in T, "format='time' lacks path %s", (n1,) + k)
            seen.add((n1,) + k)
            fe.close(T[(n1,) + k], v[..., i, :], 1e-6, 'time path %s vs joint row %d' % ((n1,) + k, i), sc)
    need(seen == set(T), "format='time' has extra paths %s", sorted(set(T) - seen)[:4])
    return any(len(k) == 2 for k in J)


def large():
    return st.fixed_dictionaries(dict(
        fe=st.just('numpy'), cfg=gen.cfg_jtfs_large(), batch=st.just([]), x=gen.signals(),
        out=st.sampled_from(['array', 'list', 'dict'])))


SUBS = [
    Sub('large', large, body_meta, 50, 1200, shards=2, rank=3),
    Sub('large_formats', large, body_formats, 40, 1000, shards=1, rank=3),
    Sub('meta', strat(['numpy']), body_meta, 900, 15000, shards=3, rank=1),
    Sub('meta-torch', strat(['torch'], nmax=80, max_q=3), body_meta, 150, 3000, shards=1, rank=2),
    Sub('formats', strat(['numpy']), body_formats, 500, 9000, shards=2, rank=1),
    Sub('formats-torch', strat(['torch'], nmax=80, max_q=3), body_formats, 150, 3000, shards=1, rank=2),
    Sub('tf', strat(['tensorflow'], nmax=40, max_q=1, jmax=4), body_meta, 30, 700, shards=1, rank=3),
]
