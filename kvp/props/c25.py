"""C25: compiled and traced transforms equal eager ones."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, call, need
from .c12 import array_ok

RULE = ('Generated configurations of the four transforms and two to three different inputs (other values, zero, large, '
        'constant): jax.jit, jax.vmap, jit of vmap, nested jit; tf.function with signature from the argument, static, unknown '
        'batch size and unknown number of batch axes (3-D needs a static batch); torch.jit.trace. The compiled function, '
        'traced on the first input, is applied to every input (the first one twice) and compared with the eager call, made '
        'before, or after, by the same or by another object. '
        'Non-trivial: the inputs differ and at least one is non-constant.')
ASSUMPTIONS = ['tolerance 2e-5 of the largest coefficient of the order, for fused float32 arithmetic (3-D: relative 2e-4 of '
               'each integral; see C09)']


@st.composite
def case(draw, f):
    tr = draw(st.sampled_from(['1d', '1d', '2d', '3d', 'jtfs']))
    c = dict(fe=f, tr=tr)
    s = f == 'jax'
    if tr == '1d':
        c['cfg'] = draw(gen.cfg1d(nmax=32 if s else 64, max_q=2 if s else 4, jmax=3 if s else 5))
    elif tr == '2d':
        c['cfg'] = draw(gen.cfg2d(nmax=12 if s else 20, cost=4 if s else 16, lmax=4, jmax=2 if s else 3))
    elif tr == '3d':
        c['cfg'] = draw(gen.cfg3d(dims=(3, 4) if s else (4, 5, 6), jmax=1, lmax=1))
    else:
        c['cfg'] = draw(gen.cfg_jtfs(nmax=32 if s else 48, max_q=1 if s else 2, jmax=3 if s else 4))
    modes = {'jax': ['jit', 'jit', 'vmap', 'jitvmap', 'jitjit'],
             'tensorflow': ['auto', 'static', 'unknown', 'unknown2', 'auto_multi'], 'torch': ['trace']}[f]
    c['mode'] = draw(st.sampled_from(modes))
    c['batch'] = draw(st.sampled_from([[1], [2], [3], [2, 2]] + ([[]] if c['mode'] not in ('vmap', 'jitvmap', 'unknown', 'unknown2') else [])))
    if s and c['mode'] not in ('vmap', 'jitvmap'):
        c['batch'] = c['batch'][:1]
    c['first'] = draw(st.sampled_from(['eager', 'compiled', 'fresh']))
    c['out'] = draw(st.sampled_from(['array', 'array', 'dict', 'list']))
    kinds = ['noise', 'impulse', 'step', 'sparse', 'const']
    c['xs'] = draw(st.lists(gen.signals(kinds, amps=(1.0, 1.0, 100.0, 0.01, 0.0)), min_size=2, max_size=3))
    return c


def leaves(y):
    if isinstance(y, dict):
        return [(k, fe.to_np(v)) for k, v in sorted(y.items(), key=lambda kv: (len(kv[0]), kv[0]))]
    if isinstance(y, (list, tuple)):
        return [(tuple(int(v) for v in np.ravel(p['n'])), fe.to_np(p['coef'])) for p in y]
    return [(None, fe.to_np(y))]


def body(c):
    f, tr, mode = c['fe'], c['tr'], c['mode']
    kw = {'1d': gen.kw1d, 'jtfs': gen.kw1d, '2d': gen.kw2d, '3d': gen.kw3d}[tr](c['cfg'])
    sh = kw['shape'] if isinstance(kw['shape'], tuple) else (kw['shape'],)
    out = c['out']
    if tr == '1d' and kw.get('T') == 0 or tr == 'jtfs' and not array_ok(kw):
        out = 'list' if out == 'array' else out
    if tr == '2d' and out == 'dict':
        out = 'list'
    # JAX and Torch traces carry arrays and dictionaries of arrays only
    if f == 'jax' and out == 'list' and tr != '3d':
        out = 'dict' if tr != '2d' else 'array'
    if f == 'torch' and out != 'array' and tr != '3d':
        if tr == '1d' and kw.get('T') == 0 or tr == 'jtfs':
            return False
        out = 'array'
    if tr != '3d':
        kw['out_type'] = out
    batch = tuple(c['batch'])
    if tr == '3d' and mode in ('unknown', 'unknown2'):
        mode = 'static'
    if mode == 'unknown2':
        batch = (batch + (1,))[:2]
    S = fe.make(f, tr, **kw)
    xs = [gen.signal(r, batch + (int(np.prod(sh)),)).reshape(batch + sh).astype(np.float32) for r in c['xs']]
    fx = [fe.to_fw(f, x) for x in xs]
    first = c.get('first', 'eager')
    # the object is compiled before it is ever called, and compared with another one, or after
    eager = [leaves(call(S, x)) for x in fx] if first == 'eager' else None
    if f == 'jax':
        import jax
        # dictionaries with tuple keys of several lengths sort as JAX requires
        fn = {'jit': lambda: jax.jit(S.scattering), 'jitjit': lambda: jax.jit(lambda z: jax.jit(S)(2 * z / 2)),
              'vmap': lambda: jax.vmap(S), 'jitvmap': lambda: jax.jit(jax.vmap(S))}[mode]()
    elif f == 'tensorflow':
        import tensorflow as tf
        if mode == 'auto':
            fn = tf.function(S)
        elif mode == 'auto_multi':
            fn = tf.function(lambda z: S.scattering(z))
        else:
            lead = {'static': batch, 'unknown': (None,) + batch[1:], 'unknown2': (None, None)}[mode]
            fn = tf.function(lambda z: S(z), input_signature=[tf.TensorSpec(lead + sh, tf.float32)])
    else:
        import torch
        fn = call(torch.jit.trace, S, fx[0], check_trace=False)
    what = '%s %s %s (%s first)' % (f, tr, mode, first)
    early = None
    if first != 'eager':
        early = leaves(call(fn, fx[0]))
        E = fe.make(f, tr, **kw) if first == 'fresh' else S
        eager = [leaves(call(E, x)) for x in fx]
    for i in list(range(len(fx))) + [0]:
        got = leaves(call(fn, fx[i])) if early is None else early
        early = None
        compare(tr, got, eager[i], kw, '%s input %d' % (what, i), float(np.abs(xs[i]).max()))
    if f == 'tensorflow' and mode in ('unknown', 'auto', 'auto_multi', 'unknown2') and batch:
        # another batch size
        z = np.concatenate([xs[0], xs[1], xs[0]], 0)
        compare(tr, leaves(call(fn, fe.to_fw(f, z))), leaves(call(S, fe.to_fw(f, z))), kw,
                '%s after a change of batch size' % what, float(np.abs(z).max()))
    # the eager call is not affected by having been compiled
    compare(tr, leaves(call(S, fx[0])), eager[0], kw, '%s eager call after compilation' % what, float(np.abs(xs[0]).max()))
    return len({(r['kind'], r['seed'], r['amp']) for r in c['xs']}) > 1 and any(r['kind'] != 'const' and r['amp'] for r in c['xs'])


def compare(tr, got, want, kw, what, amp):
    need([k for k, _ in got] == [k for k, _ in want], '%s: paths differ from the eager call', what)
    if tr == '3d':
        g, w = got[0][1], want[0][1]
        need(g.shape == w.shape, '%s: shape %s, eager %s', what, g.shape, w.shape)
        q = kw.get('integral_powers', (0.5, 1.0, 2.0))
        n = float(np.prod(kw['shape']))
        # moduli of size <= 1e-5 amp may differ freely: their q-th powers bound the deviation of an integral
        slack = np.array([n * (1e-5 * amp) ** p for p in q])
        need(np.all(np.isfinite(g)) and bool(np.all(np.abs(g - w) <= 3e-4 * np.abs(w) + slack + 1e-30)),
             '%s: integrals differ from the eager call by %.2e', what, float(np.abs(g - w).max()))
        return
    amp1 = 1e-2 * amp
    scale = {}
    for k, v in want:
        scale[len(k or ())] = max(scale.get(len(k or ()), amp1), float(np.abs(v).max()) if v.size else 0)
    for (k, g), (_, w) in zip(got, want):
        fe.close(g, w, 2e-5, '%s path %s vs eager' % (what, k), max(scale[len(k or ())], 1e-30))


SUBS = [
    Sub('torch', lambda: case('torch'), body, 120, 3000, shards=2, rank=2),
    Sub('tensorflow', lambda: case('tensorflow'), body, 80, 2400, shards=3, rank=4),
    Sub('jax', lambda: case('jax'), body, 28, 800, shards=3, rank=5),
]
