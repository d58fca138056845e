"""C14: all frontends compute the same transform."""
import numpy as np
from hypothesis import strategies as st
from .. import fe, gen
from ..harness import Sub, Violation, call, need
from .c12 import array_ok

RULE = ('Generated configurations of the four transforms, in every averaging mode and out_type, batch shapes and signals; '
        'the NumPy output is compared with another frontend (Torch, TensorFlow, JAX, scikit-learn, Keras): same keys, '
        'order, shapes, values and array type. (objects) for the same generated parameters the objects of all frontends report the same attributes, meta and sizes. (reject) mutated invalid configurations or inputs must be rejected by all '
        'frontends. Non-trivial: more than two coefficients and a non-constant input.')
ASSUMPTIONS = ['float32 tolerance 1e-4 of the largest coefficient of the order (3-D: interval slack of C09)']


@st.composite
def case(draw, frontends, small):
    tr = draw(st.sampled_from(['1d', '1d', '2d', '3d', 'jtfs']))
    c = dict(fe=draw(st.sampled_from(frontends)), tr=tr, batch=draw(gen.batches()))
    if tr == '1d':
        c['cfg'] = draw(gen.cfg1d(nmax=40 if small else 130, max_q=3 if small else 6, jmax=4 if small else 6))
    elif tr == '2d':
        c['cfg'] = draw(gen.cfg2d(nmax=18 if small else 30, cost=8 if small else 40, jmax=3, pre_pad=True))
    elif tr == '3d':
        c['cfg'] = draw(gen.cfg3d(dims=(4, 5) if small else (4, 5, 6, 7), jmax=1 if small else 2, lmax=2))
    else:
        c['cfg'] = draw(gen.cfg_jtfs(nmax=32 if small else 80, max_q=1 if small else 3, jmax=3 if small else 5))
    c['x'] = draw(gen.signals() if tr in ('1d', 'jtfs') else gen.images(d=int(tr[0])))
    c['out'] = draw(st.sampled_from(['array', 'array', 'list', 'dict']))
    return c


def setup(c):
    tr = c['tr']
    if tr == '1d':
        kw = gen.kw1d(c['cfg'])
        out = c['out'] if kw.get('T') != 0 or c['out'] != 'array' else 'list'
        kw['out_type'] = out
        x = gen.signal(c['x'], tuple(c['batch']) + (kw['shape'],))
    elif tr == 'jtfs':
        kw = gen.kw1d(c['cfg'])
        kw['out_type'] = c['out'] if (c['out'] != 'array' or array_ok(kw)) else 'list'
        x = gen.signal(c['x'], tuple(c['batch']) + (kw['shape'],))
    elif tr == '2d':
        kw = gen.kw2d(c['cfg'])
        kw['out_type'] = 'list' if c['out'] == 'list' else 'array'
        sh = kw['shape']
        if kw['pre_pad']:
            k = 2 ** kw['J']
            sh = tuple(((n + k) // k + 1) * k for n in sh)
        x = gen.image(c['x'], tuple(c['batch']) + sh)
    else:
        kw = gen.kw3d(c['cfg'])
        x = gen.image(c['x'], tuple(c['batch']) + kw['shape'])
    return kw, x.astype(np.float32).astype(np.float64)


def flatten(y):
    """output -> list of (key, raw coef)"""
    if isinstance(y, dict):
        return [(k, y[k]) for k in y]
    if isinstance(y, (list, tuple)):
        return [(tuple(p['n']), p['coef']) for p in y]
    return [(None, y)]


def native(f, v):
    if f in ('numpy', 'sklearn'):
        return isinstance(v, np.ndarray)
    if f == 'torch':
        import torch
        return isinstance(v, torch.Tensor)
    if f in ('tensorflow', 'keras'):
        import tensorflow as tf
        return tf.is_tensor(v)
    import jax
    return isinstance(v, jax.Array)


def order_of(tr, kw, k):
    if k is None or not len(k):
        return len(k) if k is not None else -1
    return len(k) - (1 if tr == 'jtfs' and kw.get('format') == 'time' else 0)


def body(c):
    f, tr = c['fe'], c['tr']
    kw, x = setup(c)
    if f == 'keras':
        kw['out_type'] = 'array'
        if tr in ('3d', 'jtfs') or kw.get('pre_pad') or kw.get('T') == 0 or 'stride' in kw or not c['batch']:
            return False
    if f == 'sklearn':
        if tr == '3d':
            kw.pop('out_type', None)
        elif kw['out_type'] != 'array':
            kw['out_type'] = 'array'
            if kw.get('T') == 0 or (tr == 'jtfs' and not array_ok(kw)):
                return False
        if kw.get('pre_pad'):
            return False
    Sn = fe.make('numpy', tr, **kw)
    yn = call(Sn, x)
    if f == 'keras':
        k2 = {k: v for k, v in kw.items() if k not in ('shape', 'out_type', 'pre_pad')}
        S = call(fe.cls('keras', tr), **k2)
        y = call(S, fe.to_fw('tensorflow', x))
    elif f == 'sklearn':
        S = fe.make('sklearn', tr, **kw)
        d = {'1d': 1, 'jtfs': 1, '2d': 2, '3d': 3}[tr]
        rows = x.reshape(tuple(c['batch']) + (-1,)) if c['batch'] else x.reshape(1, -1)
        y = call(S.transform, rows)
        need(isinstance(y, np.ndarray), 'transform returns %s', type(y).__name__)
        y = y.reshape(yn.shape) if y.size == yn.size else y
    else:
        S = fe.make(f, tr, **kw)
        y = call(S, fe.to_fw(f, x))
    a, b = flatten(yn), flatten(y)
    need(isinstance(yn, np.ndarray) == (len(a) == 1 and a[0][0] is None), 'numpy output type')
    need([k for k, _ in a] == [k for k, _ in b], '%s: paths %s..., NumPy has %s...', f, [k for k, _ in b][:4],
         [k for k, _ in a][:4])
    amp = float(np.abs(x).max())
    scale = {}
    for k, v in a:
        need(native('numpy', v), 'NumPy frontend returns %s', type(v).__name__)
        o = order_of(tr, kw, k)
        scale[o] = max(scale.get(o, 1e-2 * amp), float(np.abs(v).max()) if v.size else 0)
    # numpy float64 vs float32: frequential filters between bins amplify rounding, compare to the order's scale
    if tr == '3d':
        from ..ref3d import Ref3D
        va, slack = Ref3D(**{k: v for k, v in kw.items() if k != 'out_type'}).interval(x)
        v = fe.to_np(b[0][1])
        need(native(f, b[0][1]), '%s returns %s', f, type(b[0][1]).__name__)
        need(v.shape == a[0][1].shape, '%s: shape %s, NumPy %s', f, v.shape, a[0][1].shape)
        need(bool(np.all(np.abs(v - a[0][1]) <= 2 * slack)), '%s differs from NumPy by %.2e', f,
             float(np.abs(v - a[0][1]).max()))
    else:
        for (k, va), (_, vb) in zip(a, b):
            need(native(f, vb), '%s frontend returns %s', f, type(vb).__name__)
            vb = fe.to_np(vb)
            if va.ndim >= 2 and k is None and tr in ('1d', '2d'):
                ax = -2 if tr == '1d' else -3
                # channel 0 carries the (larger) order-0 coefficient
                for sl in (slice(0, 1), slice(1, None)):
                    ia = np.moveaxis(va, ax, 0)[sl]
                    need(va.shape == vb.shape, '%s: shape %s, NumPy %s', f, vb.shape, va.shape)
                    fe.close(np.moveaxis(vb, ax, 0)[sl], ia, 1e-4, '%s vs NumPy, channels %s' % (f, sl),
                             max(1e-2 * amp, float(np.abs(ia).max()) if ia.size else 0))
            else:
                fe.close(vb, va, 1e-4, '%s vs NumPy, path %s' % (f, k), scale[order_of(tr, kw, k)])
    return c['x']['kind'] != 'const' and sum(v.size for _, v in a) > 2


@st.composite
def bad_case(draw):
    c = draw(case(['torch'], True))
    c['mut'] = draw(st.sampled_from(['size', 'rank', 'J', 'T', 'stride', 'out_type', 'Q', 'shape', 'format']))
    c['v'] = draw(st.integers(0, 50))
    return c


def body_bad(c):
    kw, x = setup(c)
    tr, mut, v = c['tr'], c['mut'], c['v']
    if mut == 'size':
        if x.shape[-1] < 3:
            return False
        x = x[..., :-1]
    elif mut == 'rank':
        if tr in ('1d', 'jtfs'):
            return False
        x = x.reshape(-1)[:x.shape[-1]]
    elif mut == 'J':
        if tr != '2d':
            return False
        kw['J'] = 12
    elif mut == 'T':
        if tr not in ('1d', 'jtfs'):
            return False
        kw['T'] = [kw['shape'] + 1 + v, 0.5][v % 2]
        kw.pop('stride', None)
    elif mut == 'stride':
        if tr not in ('1d', 'jtfs') or kw.get('T') in (0, 'global'):
            return False
        kw['stride'] = [3, 6, 1.5, 12][v % 4]
    elif mut == 'out_type':
        if tr == '3d':
            return False
        kw['out_type'] = ['foo', '', 'ARRAY'][v % 3]
    elif mut == 'Q':
        if tr not in ('1d', 'jtfs'):
            return False
        kw['Q'] = [0, -1, (0, 1), (2, 1, 1), 'a', [2, 1]][v % 6]
    elif mut == 'shape':
        if tr not in ('1d', 'jtfs'):
            return False
        kw['shape'] = [(32, 32), 32.5, None][v % 3]
    elif mut == 'format':
        if tr != 'jtfs':
            return False
        kw['format'] = ['foo', 'Joint'][v % 2]
    for f in ('numpy', 'torch', 'tensorflow', 'jax'):
        try:
            S = fe.raw(f, tr, **kw)
            S(fe.to_fw(f, x))
        except Exception:  # noqa: BLE001
            continue
        raise Violation('%s accepts %s with an invalid %s (%r)' % (f, tr, mut, kw.get(mut, x.shape)))
    return True


PUBLIC = {'1d': ['J', 'shape', 'Q', 'T', 'stride', 'log2_T', 'log2_stride', 'average', 'max_order', 'out_type'],
          '2d': ['J', 'shape', 'L', 'max_order', 'pre_pad', 'out_type', 'M', 'N'],
          '3d': ['J', 'shape', 'L', 'sigma_0', 'max_order', 'rotation_covariant', 'method', 'points', 'integral_powers',
                 'M', 'N', 'O']}
PUBLIC['jtfs'] = PUBLIC['1d'][:8] + ['J_fr', 'Q_fr', 'F', 'stride_fr', 'log2_F', 'log2_stride_fr', 'average_fr', 'out_type',
                                     'format']


def body_objects(c):
    """Objects of every frontend with the same parameters report the same attributes and paths."""
    tr = c['tr']
    kw, _ = setup(c)
    A = fe.make('numpy', tr, **kw)
    meta = call(A.meta) if tr in ('1d', 'jtfs') else None
    for f in ('torch', 'tensorflow', 'jax', 'sklearn'):
        S = fe.make(f, tr, **kw)
        for k in PUBLIC[tr]:
            u, v = call(getattr, A, k), call(getattr, S, k)
            need(u == v and (u is v or not isinstance(u, bool)), '%s %s %s: attribute %s is %r, that of the NumPy object %r',
                 f, tr, kw, k, v, u)
        if tr == '1d':
            need(call(S.output_size) == call(A.output_size) and
                 tuple(call(S.output_size, detail=True)) == tuple(call(A.output_size, detail=True)),
                 '%s: output_size differs from NumPy', f)
        if meta is not None:
            m = call(S.meta)
            need(set(m) == set(meta), '%s: meta has the entries %s, NumPy %s', f, sorted(m), sorted(meta))
            for k in meta:
                u, v = meta[k], m[k]
                if k == 'key':
                    need([tuple(a) for a in u] == [tuple(a) for a in v], '%s %s: meta keys differ from NumPy', f, tr)
                elif np.asarray(u).dtype == object:
                    need(str(np.asarray(u).tolist()) == str(np.asarray(v).tolist()), '%s %s: meta()[%r] differs from NumPy', f, tr, k)
                else:
                    need(np.shape(u) == np.shape(v) and np.array_equal(np.asarray(u, float), np.asarray(v, float), equal_nan=True),
                         '%s %s: meta()[%r] differs from NumPy', f, tr, k)
    return len(kw) > 3


def S_(fes, small=False):
    return lambda: case(fes, small)


SUBS = [
    Sub('torch', S_(['torch']), body, 700, 14000, shards=3, rank=2),
    Sub('tensorflow', S_(['tensorflow'], True), body, 180, 4500, shards=2, rank=3),
    Sub('jax', S_(['jax'], True), body, 50, 1500, shards=1, rank=4),
    Sub('sklearn', S_(['sklearn']), body, 400, 8000, shards=1, rank=1),
    Sub('keras', S_(['keras'], True), body, 100, 2500, shards=1, rank=3),
    Sub('objects', S_(['numpy']), body_objects, 600, 12000, shards=2, rank=1),
    Sub('reject', bad_case, body_bad, 120, 2500, shards=1, rank=4),
]
